"""C07: parameter store histories against a reference store."""
import itertools
import numpy as np
import pandas as pd
import cameratransform as ct
from cameratransform.parameter_set import (Parameter, ParameterSet, ClassWithParameterSet, TYPE_INTRINSIC, TYPE_EXTRINSIC1, TYPE_EXTRINSIC2,
                                           TYPE_EXTRINSIC, TYPE_DISTORTION, TYPE_GPS)


class RefStore:
    """reference: name -> [value, default, mean, user_set, type]"""

    def __init__(self, init):
        self.p = {n: dict(value=v, default=d, mean=None, user=v is not None, type=t) for n, (v, d, t) in init.items()}
        self.trace = None

    def norm(self, n, v):
        if n in ("heading_deg",) and v is not None and abs(v) > 360:
            return v % 360
        return v

    def assign(self, n, v):
        q = self.p[n]
        if isinstance(v, tuple):
            q["mean"] = v[0]
            q["value"] = self.norm(n, v[0])
        else:
            q["mean"] = None
            q["value"] = self.norm(n, v)
        q["user"] = True

    def default(self, n, v):
        self.p[n]["default"] = v

    def fit(self, n, v):
        if n in self.p:
            self.p[n]["value"] = self.norm(n, v)
            self.p[n]["user"] = False

    def to_mean(self):
        if self.trace is not None:
            for n, v in self.trace.items():
                self.fit(n, v)
        else:
            for n, q in self.p.items():
                if q["mean"] is not None:
                    q["value"] = self.norm(n, q["mean"])

    def read(self, n):
        q = self.p[n]
        return q["default"] if q["value"] is None else q["value"]

    def open(self, type=None):
        return {n for n, q in self.p.items() if (not q["user"] or q["value"] is None) and (type is None or q["type"] & type)}

    def key(self):
        return tuple((n, q["value"], q["default"], q["mean"], q["user"]) for n, q in self.p.items()) + (self.trace is None,)


def eq(a, b):
    if a is None or b is None:
        return a is b
    return abs(float(a) - float(b)) < 1e-9


# ---- stand-alone sets ----------------------------------------------------------------------------------------------------
class Obj(ClassWithParameterSet):
    def __init__(self, ps):
        ClassWithParameterSet.__init__(self)
        self.parameters = ps


A_INIT = dict(a=(1.5, 5., TYPE_INTRINSIC), b=(None, 7., TYPE_EXTRINSIC1))
A_OPS = [(op, n, v) for n in "ab" for op, v in (("set", 3.), ("set", 0), ("set", None), ("stat", 4.), ("stat", 0.), ("default", 9.), ("default", 0.), ("fit", 2.), ("fit", 0.))] \
    + [("mean", None, None), ("sample", None, None), ("trace", None, None), ("fitdict", "ab", (6., 8.)), ("fitunknown", None, None)]


def run_alone(seq, rec):
    calls = []
    ps = ParameterSet(**{n: Parameter(v, default=d, type=t, callback=lambda: calls.append(1)) for n, (v, d, t) in A_INIT.items()})
    o = Obj(ps)
    other = ParameterSet(**{n: Parameter(v, default=d, type=t) for n, (v, d, t) in A_INIT.items()})
    m = RefStore(A_INIT)
    for i, k in enumerate(seq):
        op, n, v = A_OPS[k]
        tgt = o if i % 2 == 0 else ps
        ncalls = len(calls)
        shown = (m.read("a"), m.read("b"))
        if op == "set":
            setattr(tgt, n, v); m.assign(n, v)
        elif op == "stat":
            setattr(tgt, n, (v, 0.)); m.assign(n, (v, 0.))
        elif op == "default":
            setattr(tgt.defaults, n, v); m.default(n, v)
        elif op == "fit":
            ps.set_fit_parameters([n], [v]); m.fit(n, v)
        elif op == "fitdict":
            ps.set_fit_parameters(dict(zip(n, v)))
            for x, y in zip(n, v):
                m.fit(x, y)
        elif op == "fitunknown":
            ps.set_fit_parameters(["zzz", "a"], [1., 2.5]); m.fit("a", 2.5)
        elif op == "mean":
            o.set_to_mean(); m.to_mean()
        elif op == "sample":
            o.sample(); m.to_mean()  # all standard deviations are 0, the trace has one row
        elif op == "trace":
            o.set_trace(pd.DataFrame(dict(b=[11.], probability=[-1.]), index=[4])); m.trace = dict(b=11.)
        if shown != (m.read("a"), m.read("b")):
            rec.check(len(calls) > ncalls, lambda: "%s: derived state is not informed about the change" % [A_OPS[j] for j in seq])
    h = lambda: "history %s" % [A_OPS[j] for j in seq]
    for n in "ab":
        w = m.read(n)
        rec.check(eq(getattr(ps, n), w) and eq(getattr(o, n), w), lambda: "%s: %s reads %s, expected %s" % (h(), n, getattr(ps, n), w))
        rec.check(eq(getattr(o.defaults, n), m.p[n]["default"]), lambda: "%s: default of %s" % (h(), n))
        rec.check(eq(getattr(other, n), A_INIT[n][0] if A_INIT[n][0] is not None else A_INIT[n][1]), lambda: "%s changes an unrelated set" % h())
    rec.check(ps.get_parameter_defaults(["b", "a"]) == [m.p["b"]["default"], m.p["a"]["default"]], lambda: "%s: get_parameter_defaults" % h())
    for t in (None, 0, TYPE_INTRINSIC, TYPE_EXTRINSIC1, TYPE_EXTRINSIC2, TYPE_EXTRINSIC, TYPE_GPS, TYPE_INTRINSIC | TYPE_EXTRINSIC):
        got = ps.get_fit_parameters() if t is None else ps.get_fit_parameters(t)
        rec.check(len(set(got)) == len(got) and set(got) == m.open(t), lambda: "%s: open for fitting (type %s) %s, expected %s" % (h(), t, got, m.open(t)))
    rec.step(len(seq))
    rec.trace()
    rec.state(m.key())
    rec.outcome((m.read("a"), m.read("b"), tuple(sorted(m.open()))))


# ---- through cameras -----------------------------------------------------------------------------------------------------
I, E1, E2, DI, G = TYPE_INTRINSIC, TYPE_EXTRINSIC1, TYPE_EXTRINSIC2, TYPE_DISTORTION, TYPE_GPS
CFG = [("thr", "brown"), ("ypr", "abc"), ("thr", "none")]


def build(cfg):
    ori, lens = cfg
    p = ct.RectilinearProjection(focallength_x_px=50., focallength_y_px=45., image=(64, 48), center=(30., 20.))
    o = ct.SpatialOrientation(tilt_deg=60.) if ori == "thr" else ct.SpatialOrientationYawPitchRoll(pitch_deg=-30.)
    l = dict(none=lambda: ct.NoDistortion(), brown=lambda: ct.BrownLensDistortion(0.1), abc=lambda: ct.ABCDistortion(0.01))[lens]()
    return ct.Camera(p, o, l)


def model(cfg):
    ori, lens = cfg
    d = dict(gps_lat=(0, 0, G), gps_lon=(0, 0, G), focallength_x_px=(50., None, I), focallength_y_px=(45., None, I), center_x_px=(30., 0, I), center_y_px=(20., 0, I),
             image_height_px=(48, None, I), image_width_px=(64, None, I), sensor_height_mm=(None, 13.0, I), sensor_width_mm=(None, 17.3, I),
             elevation_m=(None, 30, E1), roll_deg=(None, 0, E1), pos_x_m=(None, 0, E2), pos_y_m=(None, 0, E2))
    if ori == "thr":
        d.update(tilt_deg=(60., 85, E1), heading_deg=(None, 0, E2))
    else:
        d.update(yaw_deg=(None, None, E1), pitch_deg=(-30., 0, E2))
    if lens != "none":
        n = ("k1", "k2", "k3") if lens == "brown" else ("a", "b", "c")
        d.update({n[0]: (0.1 if lens == "brown" else 0.01, 0, DI), n[1]: (None, 0, DI), n[2]: (None, 0, DI)})
    return RefStore(d)


PART = dict(projection=("focallength_x_px", "focallength_y_px", "center_x_px", "center_y_px", "image_height_px", "image_width_px", "sensor_height_mm", "sensor_width_mm"),
            orientation=("elevation_m", "roll_deg", "pos_x_m", "pos_y_m", "tilt_deg", "heading_deg", "yaw_deg", "pitch_deg"), lens=("k1", "k2", "k3", "a", "b", "c"))


def part_of(n):
    for p, names in PART.items():
        if n in names:
            return p
    return None


def cam_ops(cfg):
    names = ["elevation_m", "roll_deg", "center_x_px", "gps_lat", "pos_y_m", "sensor_width_mm", "focallength_y_px"] + (["tilt_deg", "heading_deg"] if cfg[0] == "thr" else ["pitch_deg"]) + \
        (["k1", "k2"] if cfg[1] == "brown" else ["a"] if cfg[1] == "abc" else [])
    small = ("k1", "k2", "a")
    ops = []
    for n in names:
        sc = 0.01 if n in small else 1.
        routes = ["cam", "cam.parameters"] + (["part", "part.parameters"] if part_of(n) else [])
        for r in routes:
            ops.append(("set", n, 12.5 * sc, r))
            ops.append(("set", n, 0 if n != "focallength_y_px" and n != "sensor_width_mm" else 7, r))
            if n != "focallength_y_px":
                ops.append(("set", n, None, r))
            ops.append(("stat", n, 4. * sc, r))
        ops.append(("set", n, np.float64(3.25 * sc), "cam"))
        if n == "heading_deg":
            ops += [("set", n, v, r) for v in (360., -360., 361., 725., -400.) for r in ("cam", "part")] + [("stat", n, 400., "cam"), ("fit", n, 500., "cam.parameters")]
        for r in ["cam"] + (["part"] if part_of(n) else []):
            ops.append(("default", n, 8. * sc, r))
        for r in ["cam.parameters"] + (["part.parameters"] if part_of(n) else []):
            ops.append(("fit", n, 2. * sc, r))
    ops += [("mean", None, None, "cam"), ("mean", None, None, "orientation"), ("sample", None, None, "cam")]
    return ops


def target(cam, n, r):
    base = getattr(cam, part_of(n)) if r.startswith("part") else cam
    return base.parameters if r.endswith("parameters") else base


def apply(cam, m, op):
    kind, n, v, r = op
    if kind == "set":
        setattr(target(cam, n, r), n, v); m.assign(n, v)
    elif kind == "stat":
        setattr(target(cam, n, r), n, (v, 0.)); m.assign(n, (v, 0.))
    elif kind == "default":
        setattr(target(cam, n, r).defaults, n, v); m.default(n, v)
    elif kind == "fit":
        target(cam, n, r).set_fit_parameters([n], [v]); m.fit(n, v)
    elif kind == "mean":
        getattr(cam, r).set_to_mean() if r != "cam" else cam.set_to_mean()
        for x, q in m.p.items():
            if q["mean"] is not None and (r == "cam" or part_of(x) == r):
                q["value"] = m.norm(x, q["mean"])
    elif kind == "sample":
        cam.sample()
        m.to_mean()


def check_cam(rec, cam, m, h):
    for n in m.p:
        if n == "yaw_deg":
            continue
        w = m.read(n)
        reads = [getattr(cam, n), getattr(cam.parameters, n)]
        if part_of(n):
            reads += [getattr(getattr(cam, part_of(n)), n), getattr(getattr(cam, part_of(n)).parameters, n)]
        rec.check(all(eq(x, w) for x in reads), lambda: "%s: %s reads %s, expected %s" % (h(), n, reads, w))
        if m.p[n]["default"] is not None:
            rec.check(eq(getattr(cam.defaults, n), m.p[n]["default"]), lambda: "%s: default of %s reads %s, expected %s" % (h(), n, getattr(cam.defaults, n), m.p[n]["default"]))
    ignore = {"focallength_px"}
    for t in (None, 0, I, E1, E2, TYPE_EXTRINSIC, DI, G, I | DI):
        got = [x for x in (cam.parameters.get_fit_parameters() if t is None else cam.parameters.get_fit_parameters(t)) if x not in ignore]
        want = m.open(t)
        if "pitch_deg" in m.p and t in (E1, E2):
            continue
        rec.check(set(got) == want and len(got) == len(want), lambda: "%s: open for fitting (type %s) %s, expected %s" % (h(), t, sorted(got), sorted(want)))
    for p in ("projection", "orientation", "lens"):
        got = [x for x in getattr(cam, p).parameters.get_fit_parameters() if x not in ignore and part_of(x) == p]
        want = {x for x in m.open() if part_of(x) == p}
        rec.check(set(got) == want, lambda: "%s: %s open for fitting %s, expected %s" % (h(), p, sorted(got), sorted(want)))


def run_cam(cfg, ops, seq, rec, bystander):
    cam = build(cfg)
    m = model(cfg)
    for k in seq:
        apply(cam, m, ops[k])
    h = lambda: "%s %s" % (cfg, [ops[k] for k in seq])
    check_cam(rec, cam, m, h)
    check_cam(rec, bystander, model(cfg), lambda: h() + " on another camera")
    rec.step(len(seq))
    rec.trace()
    rec.state((cfg, m.key()))


# ---- the paired focal length ---------------------------------------------------------------------------------------------
F_OPS = [("focallength_px", 70.), ("focallength_px", (71., 0.)), ("focallength_x_px", 60.), ("focallength_y_px", 65.), ("focallength_x_px", (61., 0.)), ("fit_px", 72.), ("fit_x", 62.), ("fit_y", 63.),
         ("part_px", 73.), ("part_x", 64.), ("params_px", 74.), ("mean", None), ("sample", None)]


def run_focal(seq, rec):
    cam = build(("thr", "brown"))
    m = model(("thr", "brown"))
    X, Y = "focallength_x_px", "focallength_y_px"
    for k in seq:
        op, v = F_OPS[k]
        names = (X, Y) if op.endswith("px") and "_x_" not in op and "_y_" not in op else (X,) if "_x" in op else (Y,)
        if op in ("mean", "sample"):
            getattr(cam, "set_to_mean" if op == "mean" else "sample")()
            m.to_mean()
        elif op.startswith("fit"):
            cam.parameters.set_fit_parameters([dict(fit_px="focallength_px", fit_x=X, fit_y=Y)[op]], [v])
            for n in names:
                m.fit(n, v)
        else:
            o = dict(part_px=cam.projection, part_x=cam.projection, params_px=cam.projection.parameters).get(op, cam)
            setattr(o, dict(part_px="focallength_px", part_x=X, params_px="focallength_px").get(op, op), v)
            for n in names:
                m.assign(n, v)
        x, y = m.read(X), m.read(Y)
        for o in (cam, cam.parameters, cam.projection, cam.projection.parameters):
            rec.check(o.focallength_x_px == x and o.focallength_y_px == y and o.focallength_px == x,
                      lambda: "%s: reads %s %s (px %s), expected %s %s" % ([F_OPS[j] for j in seq], o.focallength_x_px, o.focallength_y_px, o.focallength_px, x, y))
    got = {n for n in cam.parameters.get_fit_parameters() if n in (X, Y)}
    want = {n for n in m.open() if n in (X, Y)}
    rec.check(got == want, lambda: "%s: open for fitting %s, expected %s" % ([F_OPS[j] for j in seq], got, want))
    rec.step(len(seq))
    rec.trace()
    rec.state(("f", m.key()))


DEPTH = {"quick": (4, 2, 4), "thorough": (5, 3, 5)}
ASSUMPTIONS = ["a heading beyond +-360 degrees reads back reduced by full turns (documented wrapping)",
               "focallength_px is the pair of focallength_x_px and focallength_y_px: it reads the former and its own fit state is not part of the claim"]
BOUNDS = {"quick": "all histories of length <=4 over %d operations on a stand-alone set; all histories of length <=2 over ~%d operations (every route) on 3 cameras; all of length <=4 over %d focal length operations" % (len(A_OPS), len(cam_ops(CFG[0])), len(F_OPS)),
          "thorough": "lengths 5, 3 (one camera; first operation by every route, later ones by camera attribute and parameter set) and 5"}
CHUNK = 1


def cases(tier):
    d = DEPTH[tier]
    n = len(A_OPS)
    yield dict(kind="empty")
    for k in range(n):
        for k2 in range(n):
            yield dict(kind="alone", pre=[k, k2], depth=d[0])
    for c in range(len(CFG)):
        m = len(cam_ops(CFG[c]))
        for k in range(m):
            yield dict(kind="cam", cfg=c, first=k, depth=d[1])
    for k in range(len(F_OPS)):
        yield dict(kind="focal", first=k, depth=d[2])


def run_case(c, rec):
    if c["kind"] == "empty":
        run_alone([], rec)
        for k in range(len(A_OPS)):
            run_alone([k], rec)
        for cfg in CFG:
            check_cam(rec, build(cfg), model(cfg), lambda: "initial %s" % (cfg,))
        # the paired focal length is drawn together, separate ones separately
        for pair in (True, False):
            cam = build(("thr", "none"))
            for n in ("focallength_px",) if pair else ("focallength_x_px", "focallength_y_px"):
                setattr(cam, n, (71., 2.))
            cam.sample()
            x, y = cam.focallength_x_px, cam.focallength_y_px
            rec.check(x != 71 and y != 71 and (x == y) == pair, lambda: "%s given as (71, 2): drawn %s %s" % ("focallength_px" if pair else "both focal lengths", x, y))
        return
    if c["kind"] == "alone":
        for l in range(2, c["depth"] + 1):
            for rest in itertools.product(range(len(A_OPS)), repeat=l - 2):
                run_alone(c["pre"] + list(rest), rec)
    elif c["kind"] == "cam":
        cfg = CFG[c["cfg"]]
        ops = cam_ops(cfg)
        by = build(cfg)
        run_cam(cfg, ops, [c["first"]], rec, by)
        for k in range(len(ops)):
            run_cam(cfg, ops, [c["first"], k], rec, by)
        if c["depth"] == 3 and c["cfg"] == 0:
            sub = [k for k in range(len(ops)) if ops[k][3] in ("cam", "cam.parameters")]
            for k, k2 in itertools.product(sub, repeat=2):
                run_cam(cfg, ops, [c["first"], k, k2], rec, by)
    else:
        for l in range(1, c["depth"] + 1):
            for rest in itertools.product(range(len(F_OPS)), repeat=l - 1):
                run_focal([c["first"]] + list(rest), rec)
