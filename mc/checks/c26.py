"""C26: queries of one camera interleaved in two threads at every pair of points, and interrupted at every point."""
import itertools, os, sys, threading
import numpy as np
import cameratransform as ct
from mc.util import camera

W, H = 8, 6
BASE = [dict(proj="rect", fx=7., fy=7.5, cx=3.8, cy=2.7, w=W, h=H, lens="brown", coef=(0.1, 0.02, 0.), tilt=65., roll=3., heading=8., pos=(0.5, 0.2, 6.)),
        dict(proj="cyl", fx=6., fy=6., cx=4.1, cy=3.1, w=W, h=H, lens="abc", coef=(0., 0.05, 0.02), tilt=60., roll=-4., heading=-20., pos=(0.1, -0.6, 5.)),
        dict(proj="equi", fx=6., fy=6.5, cx=4., cy=3., w=W, h=H, lens="none", coef=(0, 0, 0), tilt=75., roll=0., heading=0., pos=(0., 0., 4.))]
GRAY = (1 + np.arange(W * H).reshape(H, W) * 4).astype(np.uint8)
PIX = np.array([[1., 2.], [4.5, 3.3], [6., 5.]])
SPACE = np.array([[0.4, 9., 0.], [-2., 6., 0.3], [1., 14., -0.5]])
QUERY = {
    "top1": lambda c: c.getTopViewOfImage(GRAY.copy(), extent=[-6.3, 7.2, 1.1, 14.3], scaling=1.5),
    "top2": lambda c: c.getTopViewOfImage(GRAY.copy(), extent=[-6.3, 7.2, 1.1, 14.3], scaling=1.5, Z=2.),
    "top3": lambda c: c.getTopViewOfImage(GRAY.copy(), extent=[-3.1, 5.4, 4.2, 12.1], scaling=1.1, hide_backpoints=False),
    "und1": lambda c: c.undistortImage(GRAY.copy()),
    "und2": lambda c: c.undistortImage(GRAY.copy(), extent=[-2.3, 9.1, 0.8, 7.4], scaling=0.9),
    "image": lambda c: c.imageFromSpace(SPACE.copy()),
    "space": lambda c: c.spaceFromImage(PIX.copy(), Z=0.5),
    "ray": lambda c: c.getRay(PIX.copy(), normed=True),
    "gps": lambda c: c.gpsFromImage(PIX.copy(), Z=0.2),
    "igps": lambda c: c.imageFromGPS(np.array([[1e-4, 1e-5, 0.], [5e-5, -1e-5, 1.]])),
    "height": lambda c: c.getObjectHeight(PIX[:2] + [0, 1.], PIX[:2]),
    "length": lambda c: c.getObjectLength(PIX[0] + [0, 1.], PIX[2], Z=0.5),
    "lut": lambda c: c.generateLUT(),
    "horizon": lambda c: c.getImageHorizon(np.array([1., 5.])),
    "border": lambda c: c.getImageBorder(resolution=3),
    "cone": lambda c: c.getCameraCone(False, 5.),
    "prob": lambda c: np.array(c.getLogProbability()),
    "str": lambda c: np.array([ord(x) for x in str(c)]),
}


def flat(x):
    """tuples of arrays as one array"""
    return np.concatenate([flat(y).ravel() for y in x]) if isinstance(x, (tuple, list)) else np.asarray(x)


VIEWS = ["top1", "top2", "top3", "und1", "und2"]
SCRATCH = os.path.dirname(os.path.abspath(ct.__file__)) + os.sep
ASSUMPTIONS = ["threads switch between two lines (thorough: also two byte codes) of the package; steps inside numpy, scipy and OpenCV are not divided", "an interruption is an exception raised before a line (thorough: before a byte code) of the package",
               "the calls only read the camera; edits that run at the same time as queries are not claimed"]
BOUNDS = {"quick": "interruption before every line of each of %d queries x what was asked before (nothing, two of the 5 view requests) x 3 cameras, followed by the interrupted and the earlier query and a view; two threads: all pairs of the 5 view requests x earlier request, and each view with each of the other queries, all schedules with 1 preemption; all pairs of the other queries, reduced to one schedule where neither query writes to anything that both threads can reach (checked before every line); the pairs of top views and of undistorted images with all schedules with 2 preemptions; attribute access is one step except for camera 0; a camera and a second one sharing its parts" % len(QUERY),
          "thorough": "as quick with preemptions and interruptions before every byte code (2 preemptions: lines), all pairs of queries on 3 cameras, both kinds of exception"}
CHUNK = 1


def cases(tier):
    t = tier == "thorough"
    g = "op" if t else "coarse"
    names = list(QUERY)
    for b in range(len(BASE)):
        for k, q in enumerate(names):
            for pre in [None] + VIEWS:
                if t or pre in (None, VIEWS[(k + b) % len(VIEWS)], VIEWS[(k + b + 3) % len(VIEWS)]):
                    yield dict(kind="stop", base=b, q=q, pre=pre, gran="op" if t else "line" if b == 0 else "coarse", exc=[0, 1] if t else [0, 1][(k + len(pre or "")) % 2:][:1])
    for b in range(len(BASE)):
        for q1, q2 in itertools.product(names, names):
            if t or q1 in VIEWS and q2 in VIEWS or (q1 in VIEWS or q2 in VIEWS) and b == (len(q1) + len(q2)) % len(BASE):
                for pre in [None, q1] if q1 in VIEWS and q2 in VIEWS else [None]:
                    yield dict(kind="one", base=b, q=[q1, q2], pre=pre, gran="line" if b == 0 and {q1, q2} in ({"top1", "top2"}, {"und1", "und2"}) and not t else g)
    for b in range(len(BASE)):
        for q in names if not t else ():
            if q not in VIEWS:
                yield dict(kind="reduced", base=b, q=q)
    for b in range(len(BASE)):
        for q1, q2 in itertools.product(VIEWS, VIEWS):
            chosen = (q1, q2) in (("top1", "top2"), ("und1", "und2"))
            if not t and not chosen and (b or q1[:3] != q2[:3] or q1 == q2 != "top1"):
                continue
            for pre in (None, q1, q2)[:3 if t else 2 if b == 0 and chosen else 1]:
                yield dict(kind="two", base=b, q=[q1, q2], pre=pre, gran="coarse")
        for q1, q2 in itertools.product(("top1", "und2", "image"), ("top2", "und2", "space")):
            yield dict(kind="one", base=b, q=[q1, q2], pre=None, share=True, gran=g)


def fresh(b):
    cam = camera(BASE[b])
    cam.addObjectHeightInformation(PIX[:2] + [0, 1.], PIX[:2], 1.4, 0.5)
    cam.addLandmarkInformation(PIX[:2], SPACE[:2], [1., 1., 1.])
    return cam


_ANS = {}


def answer(b, q):
    if (b, q) not in _ANS:
        _ANS[b, q] = flat(QUERY[q](fresh(b))).copy()
    return _ANS[b, q]


def right(b, q, got):
    want = answer(b, q)
    got = flat(got)
    return got.shape == want.shape and got.dtype == want.dtype and np.allclose(got.astype(float), want.astype(float), rtol=1e-12, atol=1e-12, equal_nan=True)


HELPERS = ("__getattr__", "__setattr__", "<genexpr>", "<listcomp>", "scale", "offset", "_convert_radius", "value")


def traced(frame, gran):
    """is this call divided into steps? gran: "coarse" (lines, attribute access is one step), "line" or "op" (byte codes)"""
    if not frame.f_code.co_filename.startswith(SCRATCH) or gran == "coarse" and frame.f_code.co_name in HELPERS:
        return False
    if gran == "op":
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
    return True


class Blocked(Exception):
    pass


class Thread:
    """runs a query and stops before a chosen line of the package"""

    def __init__(self, fn, limit, gran):
        self.fn, self.limit, self.gran = fn, limit, gran
        self.n = 0
        self.done = False
        self.error = self.result = None
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.th = threading.Thread(target=self.body, daemon=True)

    def body(self):
        sys.settrace(self.call)
        try:
            self.result = self.fn()
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
            self.done = True
            self.back.release()

    def call(self, frame, event, arg):
        return self.line if traced(frame, self.gran) else None

    def line(self, frame, event, arg):
        if event == ("opcode" if self.gran == "op" else "line"):
            if self.n == self.limit:
                self.limit = None
                self.back.release()
                self.go.acquire()
            self.n += 1
        return self.line

    def start(self):
        self.th.start()
        return self.wait()

    def resume(self, limit=None):
        self.limit = limit
        self.go.release()
        return self.wait()

    def wait(self, timeout=5.):
        """True: finished, False: stopped before the line; Blocked: waits for the other thread"""
        if not self.back.acquire(timeout=timeout):
            raise Blocked
        return self.done


def count(fn, gran):
    t = Thread(fn, None, gran)
    t.start()
    if t.error is not None:
        raise t.error
    return t.n


def check_thread(rec, t, b, q, what):
    if t.error is not None:
        rec.fail("%s: %s raised %s: %s" % (what, q, type(t.error).__name__, t.error))
    rec.check(right(b, q, t.result), lambda: "%s: %s gives %s instead of %s" % (what, q, flat(t.result).tolist(), answer(b, q).tolist()))


def afterwards(rec, cam, b, names, what):
    for q in names:
        got = QUERY[q](cam)
        rec.check(right(b, q, got), lambda: "%s: afterwards %s gives %s instead of %s" % (what, q, flat(got).tolist(), answer(b, q).tolist()))
        rec.step()


def content(x, depth=0):
    """a comparable image of everything reachable from an object that two threads share"""
    if isinstance(x, (int, float, str, bytes, bool, type(None), np.generic)):
        return x
    if isinstance(x, np.ndarray):
        return id(x), x.shape, x.tobytes() if x.dtype != object else tuple(map(id, x.ravel()))
    if depth > 5:
        return id(x)
    if isinstance(x, dict):
        return id(x), tuple((k if isinstance(k, str) else id(k), content(v, depth + 1)) for k, v in list(x.items()))
    if isinstance(x, (list, tuple, set, frozenset)):
        return id(x), tuple(content(v, depth + 1) for v in list(x))
    if callable(x) and getattr(x, "__closure__", None) is not None and str(getattr(x, "__module__", "")).startswith("cameratransform"):
        return id(x), tuple(id(k.cell_contents) for k in x.__closure__), content(x.__defaults__, depth + 1)
    if type(x).__module__.startswith("cameratransform"):
        d = {k: getattr(x, k, None) for k in getattr(type(x), "__slots__", ())}
        d.update(getattr(x, "__dict__", {}))
        return id(x), tuple((k, content(v, depth + 1)) for k, v in d.items())
    return id(x)


def shared_state(cam):
    out = [content(cam)]
    for ns in _SPACES:
        out.append(tuple(map(id, list(ns.values()))))
    return out


_SPACES = []


def spaces():
    """the name spaces of the modules and classes of the package"""
    for name, mod in list(sys.modules.items()):
        if name.startswith("cameratransform") and mod is not None:
            _SPACES.append(vars(mod))
            _SPACES.extend(vars(v) for v in vars(mod).values() if isinstance(v, type) and v.__module__ == name)


_WRITES = {}


def writes(b, q):
    """does the query write to anything that two threads share, even for a moment (seen before some line)?"""
    if not _SPACES:
        spaces()
    if (b, q) not in _WRITES:
        hit = []
        for pre in (None, q):
            cam = fresh(b)
            if pre:
                QUERY[pre](cam)
            last = [None]

            def line(frame, event, arg):
                if event == "line":
                    sys.settrace(None)
                    now = shared_state(cam)
                    if last[0] is not None and now != last[0]:
                        hit.append(frame.f_lineno)
                    last[0] = now
                    sys.settrace(call)
                return line

            def call(frame, event, arg):
                return line if not hit and traced(frame, "coarse") else None
            sys.settrace(call)
            try:
                QUERY[q](cam)
            finally:
                sys.settrace(None)
            if last[0] is not None and shared_state(cam) != last[0]:
                hit.append(0)
        _WRITES[b, q] = bool(hit)
    return _WRITES[b, q]


def pair(c):
    cam = fresh(c["base"])
    other = cam
    if c.get("share"):
        other = ct.Camera(cam.projection, cam.orientation, cam.lens)
    if c["pre"]:
        QUERY[c["pre"]](cam)
    return cam, other


def run_one(c, rec):
    """the first query is preempted once, the second runs in between"""
    b, (q1, q2), gran = c["base"], c["q"], c["gran"]
    cam, _ = pair(c)
    n = count(lambda: QUERY[q1](cam), gran)
    for i in range(n):
        cam, other = pair(c)
        what = "camera %d, %s%s in one thread stopped at point %d, %s in another" % (b, (c["pre"] + " asked before, ") if c["pre"] else "", q1, i, q2)
        t1, t2 = Thread(lambda: QUERY[q1](cam), i, gran), Thread(lambda: QUERY[q2](other), None, gran)
        try:
            if t1.start():
                check_thread(rec, t1, b, q1, what)
                break
            try:
                t2.start()
            except Blocked:         # the second thread waits for the first
                t1.resume()
                t2.wait()
            else:
                t1.resume()
        except Blocked:
            rec.fail("%s: the threads wait for each other" % what)
        t1.th.join(5), t2.th.join(5)
        check_thread(rec, t1, b, q1, what)
        check_thread(rec, t2, b, q2, what)
        afterwards(rec, cam, b, (q1, q2), what)
        rec.trace()
        rec.step(2)
        rec.states += 1
    rec.outcome((q1, q2, n // 10))


def run_reduced(c, rec):
    """a query that writes nothing that two threads share commutes with every other such query; otherwise all pairs are explored"""
    b, q = c["base"], c["q"]
    others = [x for x in QUERY if x not in VIEWS]
    if writes(b, q):
        for x in others:
            run_one(dict(kind="one", base=b, q=[q, x], pre=None, gran="coarse"), rec)
            run_one(dict(kind="one", base=b, q=[x, q], pre=None, gran="coarse"), rec)
    rec.step(2)
    rec.trace()
    rec.states += 1


def run_two(c, rec):
    """two preemptions: the first query stops, the second stops, the first continues to its end, then the second"""
    b, (q1, q2), gran = c["base"], c["q"], c["gran"]
    cam, other = pair(c)
    n1 = count(lambda: QUERY[q1](cam), gran)
    blocked = False
    for i in range(n1):
        for j in range(10 ** 6):
            cam, other = pair(c)
            what = "camera %d, %s%s stopped at point %d, %s in another thread stopped at point %d, first continued" % (b, (c["pre"] + " asked before, ") if c["pre"] else "", q1, i, q2, j)
            t1, t2 = Thread(lambda: QUERY[q1](cam), i, gran), Thread(lambda: QUERY[q2](other), j, gran)
            end = False
            try:
                if t1.start():
                    break
                try:
                    end = t2.start()        # finished before point j: no second preemption
                except Blocked:
                    end, blocked = True, True
                try:
                    t1.resume()
                    w = True
                except Blocked:             # the first waits for the second
                    end, w = True, False
                    t2.resume()
                    t1.wait()
                if w and not t2.done:
                    t2.resume() if not blocked else t2.wait()
            except Blocked:
                rec.fail("%s: the threads wait for each other" % what)
            t1.th.join(5), t2.th.join(5)
            check_thread(rec, t1, b, q1, what)
            check_thread(rec, t2, b, q2, what)
            afterwards(rec, cam, b, (q1, q2), what)
            rec.trace()
            rec.step(2)
            rec.states += 1
            if end:
                blocked = False
                break
    rec.outcome((q1, q2, n1 // 10))


class Stop(Exception):
    pass


def run_stop(c, rec):
    """an exception at every point; the next answers are right"""
    b, q, pre = c["base"], c["q"], c["pre"]
    for exc in [(KeyboardInterrupt, MemoryError)[k] for k in c["exc"]]:
        for i in range(10 ** 6):
            cam = fresh(b)
            if pre:
                QUERY[pre](cam)
            state = dict(n=0, hit=False)

            def line(frame, event, arg):
                if event == ("opcode" if c["gran"] == "op" else "line"):
                    if state["n"] == i and not state["hit"]:
                        state["hit"] = True
                        raise exc("injected")
                    state["n"] += 1
                return line

            def call(frame, event, arg):
                return line if traced(frame, c["gran"]) else None

            what = "camera %d, %s%s interrupted (%s) at point %d" % (b, (pre + " asked before, ") if pre else "", q, exc.__name__, i)
            sys.settrace(call)
            try:
                got = QUERY[q](cam)
            except (KeyboardInterrupt, MemoryError):
                sys.settrace(None)
                got = None
            finally:
                sys.settrace(None)
            if got is not None:
                rec.check(right(b, q, got), lambda: "%s: it gives %s instead of %s" % (what, flat(got).tolist(), answer(b, q).tolist()))
            if not state["hit"]:
                break
            afterwards(rec, cam, b, [x for x in (pre, q, "top1" if q != "top1" else "und2", q) if x], what)
            rec.trace()
            rec.step()
            rec.states += 1
        rec.outcome((q, i // 10))


def run_case(c, rec):
    globals()["run_" + c["kind"]](c, rec)
