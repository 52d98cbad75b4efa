#!/usr/bin/env python3
"""Sensitivity measurement: systematic single-site mutants of /repo, each run against the checks of its function.

usage: mutate.py OUT.jsonl WORKERS [file.py[:function] ...]
Works only in scratch copies under /tmp (of /repo and of /verif); it is a development tool, no check uses it.
"""
import ast, json, os, shutil, subprocess, sys, threading, queue, time

FILES = ["projection.py", "spatial.py", "lens_distortion.py", "parameter_set.py", "gps.py", "ray.py", "scene.py", "statistic.py", "utils.py", "camera.py"]
SKIP = ("__str__", "get_all_pymc_parameters", "fridge", "Model", "normal", "fridge")
MAP = {
    "projection.py": ["C01", "C09", "C04", "C05", "C08", "C07", "C20", "C06"],
    "spatial.py": ["C02", "C05", "C08", "C07", "C21", "C06"],
    "lens_distortion.py": ["C03", "C04", "C05", "C14", "C08", "C06"],
    "parameter_set.py": ["C07", "C17", "C18", "C08", "C14", "C06"],
    "gps.py": ["C10", "C11", "C05", "C17"],
    "ray.py": ["C13", "C12", "C14", "C15", "C05", "C17"],
    "scene.py": ["C22"],
    "statistic.py": ["C18", "C23", "C17", "C27"],
    "utils.py": ["C05", "C08", "C12", "C15", "C14"],
    "camera.py": ["C04", "C05", "C15", "C14", "C20", "C16", "C17", "C19", "C08", "C21", "C11", "C25", "C06", "C26"],
}
FN = {"setCameraParametersByPointCorrespondence": ["C24"], "plotTrace": ["C27"], "print_mean_std": ["C27"], "printTraceSummary": ["C27"], "plotEpilines": ["C27"], "plotMyEpiploarLines": ["C27"],
      "plotFitInformation": ["C25"], "metropolis": ["C23", "C18"],
      "_getSensorFromDatabase": ["C19"], "getCameraParametersFromExif": ["C19"], "get_exif": ["C19"], "to_number": ["C19"],
      "getImageHorizon": ["C20", "C17", "C05"], "distanceToHorizon": ["C20"], "getImageBorder": ["C20"], "getCameraCone": ["C20"],
      "generateLUT": ["C15"], "get_square": ["C15"], "rotateSpace": ["C21", "C06"], "scaleSpace": ["C21"],
      "save": ["C08"], "load": ["C08"], "load_camera": ["C08"], "_getMap": ["C16"], "_getUndistortMap": ["C16"], "_getMapState": ["C16"],
      "getTopViewOfImage": ["C16"], "undistortImage": ["C16"], "areaOfTriangle": ["C12"], "areaOfQuadrilateral": ["C12", "C15"],
      "setGPSpos": ["C11", "C06", "C08"], "extrudeLine": ["C13"], "ray_intersect_triangle": ["C13", "C05"]}
# cheapest first
COST = dict(C01=3, C02=4, C03=5, C04=30, C05=20, C06=190, C07=30, C08=35, C09=4, C10=7, C11=4, C12=13, C13=15, C14=40, C15=8, C16=14, C17=40, C18=52, C19=8, C20=60, C21=50, C22=12, C23=87, C24=8, C25=28, C26=80, C27=60)
SWAP = {"sin": "cos", "cos": "sin", "min": "max", "max": "min", "floor": "ceil", "deg2rad": "rad2deg", "rad2deg": "deg2rad", "nanmin": "nanmax", "nanmax": "nanmin",
        "argmin": "argmax", "argmax": "argmin", "nanargmin": "nanargmax", "arcsin": "arccos", "tan": "sin", "arctan": "arcsin", "zeros_like": "ones_like", "ones_like": "zeros_like"}
NAMES = [("_x_", "_y_"), ("_y_", "_x_"), ("width", "height"), ("height", "width"), ("lat1", "lat2"), ("lon1", "lon2"), ("_lat", "_lon"), ("lens", "projection"), ("points_feet", "points_head")]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"], ast.Mod: ["*"], ast.BitOr: ["&"], ast.BitAnd: ["|"]}
CMPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


def mutants(fname, src, only=None):
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()
    off = lambda ln, col: starts[ln - 1] + col
    span = lambda n: (off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset))
    seg = lambda n: raw[slice(*span(n))].decode()
    out = []

    def add(fn, n, new, what):
        a, b = span(n)
        if raw[a:b].decode() != new:
            out.append((fn, n.lineno, what, a, b, new))

    def visit(node, fn, doc_ok):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, ast.keyword) and ch.arg in ("range", "type", "dtype"):
                continue
            name = fn
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                if any(s in ch.name for s in SKIP):
                    continue
                name = ch.name if isinstance(ch, ast.FunctionDef) else fn
            if fn or isinstance(ch, ast.FunctionDef):
                mut(ch, name)
            visit(ch, name, True)

    def mut(n, fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(fn, n, "%s %s %s" % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), "cmp")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
            for o in BIN[type(n.op)]:
                add(fn, n, "((%s) %s (%s))" % (seg(n.left), o, seg(n.right)), "bin")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(fn, n, "(%s)" % seg(n.operand), "unary")
        if isinstance(n, ast.BoolOp):
            o = "or" if isinstance(n.op, ast.And) else "and"
            add(fn, n, "(%s)" % (" %s " % o).join("(%s)" % seg(v) for v in n.values), "bool")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(fn, n.test, "True", "if")
            add(fn, n.test, "False", "if")
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            v = n.value
            for w in ([v + 1] if isinstance(v, int) else [v * 1.5 + (v == 0)]) + ([0] if v == 1 else []):
                add(fn, n, "(%r)" % w, "const")
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(fn, n, repr(not n.value), "const")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in SWAP:
            s = seg(n.func)
            add(fn, n.func, s[:-len(n.func.attr)] + SWAP[n.func.attr], "call")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("arctan2", "cross", "dot") and len(n.args) == 2:
            add(fn, n, "%s(%s, %s)" % (seg(n.func), seg(n.args[1]), seg(n.args[0])), "swapargs")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("abs", "array", "copy", "deg2rad", "asarray", "floor") and n.args:
            add(fn, n, "(%s)" % seg(n.args[0]), "unwrap")
        if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(getattr(n, "ctx", None), ast.Load):
            s = seg(n)
            tail = n.attr if isinstance(n, ast.Attribute) else n.id
            for a, b in NAMES:
                if a in tail:
                    add(fn, n, s[:len(s) - len(tail)] + tail.replace(a, b), "name")
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            add(fn, n, "pass", "drop")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(fn, n, seg(n.value), "unslice")
        if isinstance(n, ast.keyword) and n.arg in ("normed", "direction", "hide_backpoints", "Z"):
            pass

    visit(tree, None, True)
    seen = set()
    for fn, ln, what, a, b, new in out:
        if only and fn not in only:
            continue
        m = (raw[:a] + new.encode() + raw[b:])
        if m in seen:
            continue
        seen.add(m)
        try:
            compile(m, fname, "exec")
        except (SyntaxError, ValueError):
            continue
        yield dict(file=fname, fn=fn, line=ln, what=what, old=raw[a:b].decode()[:100], new=new[:100]), m


# values of a certain kind are changed, all others stay (what an unusual input breaks)
HELPER = '''


def _mx(v, kind):
    import numpy as _np
    if isinstance(v, (bool, str, dict, type(None))) or callable(v):
        return v
    try:
        a = _np.asarray(v)
        if a.dtype.kind not in "iuf" or a.size == 0:
            return v
    except Exception:
        return v
    if kind == "len1":
        return a[0] if a.ndim > 1 and a.shape[0] == 1 else v
    if kind == "int":
        if a.dtype.kind == "f" or not a.ndim:
            return v
        return a.astype(a.dtype) // 2 * 2
    b = a.astype(float)
    if kind == "huge":
        b = _np.where(_np.abs(b) > 1e4, _np.sign(b) * 1e4, b)
    elif kind == "tiny":
        b = _np.where(_np.abs(b) < 1e-3, 0., b)
    elif kind == "neg":
        b = _np.where(b < -100, -100., b)
    elif kind == "scalarneg":
        b = _np.abs(b) if not b.ndim else b
    elif kind == "f4":
        b = b.astype(_np.float32).astype(float)
    elif kind == "nan":
        b = _np.where(_np.isnan(b), 0., b)
    elif kind == "zero":
        b = _np.where(b == 0, 1e-2, b)
    if _np.array_equal(a, b, equal_nan=True):
        return v
    return b if isinstance(v, _np.ndarray) else type(v)(b.tolist()) if isinstance(v, (list, tuple)) else float(b) if b.ndim == 0 else b
'''
KINDS = ["huge", "tiny", "neg", "scalarneg", "f4", "nan", "zero", "len1", "int"]


def range_mutants(fname, src, only=None):
    tree = ast.parse(src)
    lines = src.split("\n")
    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef) or any(s in f.name for s in SKIP) or (only and f.name not in only):
            continue
        sites = []
        body = f.body[1:] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) and len(f.body) > 1 else f.body
        for a in f.args.args:
            if a.arg not in ("self", "plot", "axes", "cls"):
                sites.append((body[0].lineno - 1, body[0].col_offset, a.arg))
        for n in ast.walk(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and n.lineno == n.end_lineno and isinstance(n.targets[0], (ast.Name, ast.Attribute)) and not isinstance(n.value, (ast.Constant, ast.Dict, ast.Lambda, ast.JoinedStr)):
                sites.append((n.end_lineno, n.col_offset, ast.unparse(n.targets[0])))
        for ln, col, name in sites:
            for kind in os.environ.get("MUT_KINDS", " ".join(KINDS)).split():
                new = lines[:ln] + [" " * col + "%s = _mx(%s, %r)" % (name, name, kind)] + lines[ln:]
                m = ("\n".join(new) + HELPER).encode()
                try:
                    compile(m, fname, "exec")
                except SyntaxError:
                    continue
                yield dict(file=fname, fn=f.name, line=ln, what="range", old=name, new=kind), m


def worker(k, q, out, lock):
    w, v = "/tmp/mut/w%d" % k, "/tmp/mut/v%d" % k
    for d in (w, v):
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs(w)
    shutil.copytree("/repo/cameratransform", w + "/cameratransform")
    shutil.copytree("/verif", v, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
    env = dict(os.environ, VERIF_REPO=w, VERIF_PROCS=os.environ.get("MUT_PROCS", "2"), VERIF_CASE_TIMEOUT="100")
    while True:
        try:
            d, m = q.get_nowait()
        except queue.Empty:
            break
        p = w + "/cameratransform/" + d["file"]
        orig = open("/repo/cameratransform/" + d["file"], "rb").read()
        open(p, "wb").write(m)
        d["caught"] = None
        left_out = os.environ.get("MUT_WITHOUT", "").split()
        for c in sorted(FN.get(d["fn"]) if FN.get(d["fn"]) and d["file"] in ("camera.py", "ray.py", "statistic.py") else MAP[d["file"]], key=COST.get):
            if c in left_out:
                continue
            try:
                r = subprocess.run(["./run.sh", c, "quick"], cwd=v, env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                d["caught"] = c + " timeout"
                break
            if r.returncode != 0:
                d["caught"] = c if "VIOLATION" in r.stdout else c + " rc=%d" % r.returncode
                break
        open(p, "wb").write(orig)
        with lock:
            out.write(json.dumps(d) + "\n")
            out.flush()
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(v, ignore_errors=True)


if __name__ == "__main__":
    q = queue.Queue()
    sel = {}
    for a in sys.argv[3:]:
        f, _, fn = a.partition(":")
        sel.setdefault(f, set())
        if fn:
            sel[f].add(fn)
    n = k = 0
    done = set()
    if os.path.exists(sys.argv[1]):
        for l in open(sys.argv[1]):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["what"], d["old"], d["new"]))
    for f in FILES:
        if sel and f not in sel:
            continue
        for d, m in (range_mutants if os.environ.get("MUT_RANGE") else mutants)(f, open("/repo/cameratransform/" + f).read(), sel.get(f)):
            if (d["file"], d["line"], d["what"], d["old"], d["new"]) in done:
                continue
            k += 1
            if k % int(os.environ.get("MUT_STRIDE", "1")):
                continue
            q.put((d, m))
            n += 1
    print(n, "mutants", flush=True)
    if sys.argv[2] == "0":
        sys.exit()
    os.makedirs("/tmp/mut", exist_ok=True)
    lock = threading.Lock()
    with open(sys.argv[1], "a") as out:
        ts = [threading.Thread(target=worker, args=(k, q, out, lock)) for k in range(int(sys.argv[2]))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
