"""C17: histories of adding, clearing and editing; after every step the log-probability against a reference sum."""
import itertools, math
import numpy as np
import cameratransform as ct
from mc.ref import RefCam, R_EARTH, arc
from mc.util import camera, refcam, projection

BASE = [dict(proj="rect", fx=900., fy=950., cx=320., cy=240., w=640, h=480, tilt=80., roll=2., heading=10., pos=(1., -2., 12.)),
        dict(proj="rect", fx=900., fy=900., cx=300., cy=250., w=640, h=480, tilt=78., roll=0., heading=-20., pos=(0., 0., 15.), lens="brown", coef=(0.05, 0., 0.)),
        dict(proj="cyl", fx=500., fy=520., cx=310., cy=230., w=640, h=480, tilt=85., roll=-1., heading=0., pos=(0., 0., 10.))]
FEET = np.array([[200., 380.], [330., 300.], [450., 420.]])
HEAD = np.array([[199., 330.], [330., 280.], [452., 350.]])
LM_I = np.array([[150., 300.], [400., 350.]])
LM_S = np.array([[-6., 60., 0.], [5., 35., 1.]])
LM_G = np.array([[0.0005, -0.00005, 0.], [0.00032, 0.00004, 1.]])
HOR = np.array([[10., 70.], [320., 75.], [600., 60.]])
OPS = ["height", "height1", "heightN", "heightV", "heightP", "length", "lengthN", "lengthV", "lengthP", "lm", "lm1", "lmN", "lmP", "gps", "gpsN", "gpsP", "hor", "horN", "horP", "custom", "customP", "twice", "clear", "tilt", "elev", "focal", "undef", "lat", "setV", "fitset", "lens"]
GOPS = ["base", "base2", "corr", "corrS", "gcustom", "c0height", "c1lm", "c0nan", "gclear", "c0clear", "pos1", "tilt0", "focal", "heading1"]
ASSUMPTIONS = ["a landmark's term is the documented normal density of the landmark position summed over the 1000 equidistant points of its viewing ray within twice the largest uncertainty around the nearest point",
               "the horizon of a column is the image row nearest to it, as documented", "correspondence terms are checked for distortion-free rectilinear cameras standing side by side"]
BOUNDS = {"quick": "3 cameras x all histories of up to 2 of %d operations and of 3 operations from a reduced alphabet; 5 groups (side by side, one ahead of the other, exactly one and two metres ahead, face to face): all histories of up to 3 (2 with correspondences for all but the first) of %d operations; the information given as arrays that are overwritten afterwards, or as lists; one undefined point in every place of every kind of information; groups of 1-4 cameras with information on every subset of them; 16 displacements of two cameras (also none) x 12 baselines" % (len(OPS), len(GOPS)),
          "thorough": "all histories of up to 3 operations for cameras, and of up to 4 for groups"}
CHUNK = 4
RED = ["height", "heightV", "lengthN", "lm", "gps", "hor", "custom", "clear", "undef", "setV", "heightP", "elev"]


def cases(tier):
    seqs = [[a] for a in OPS] + [[a, b] for a in OPS for b in OPS]
    seqs += [list(t) for t in itertools.product(OPS if tier == "thorough" else RED, repeat=3)]
    g = [list(t) for k in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4)) for t in itertools.product(GOPS, repeat=k)]
    n = 60
    for b in range(len(BASE)):
        yield dict(kind="camera", base=b, seqs=[[a] for a in OPS], lists=True)
        for i in range(0, len(seqs), n):
            yield dict(kind="camera", base=b, seqs=seqs[i:i + n])
    for b in range(len(BASE) + 3):
        yield dict(kind="undefined", base=b)
    for n_cams in (1, 2, 3, 4):
        for wiring in ("shared", "orientations", "all"):
            yield dict(kind="many", n=n_cams, wiring=wiring)
    yield dict(kind="group", base=0, seqs=[[a] for a in GOPS], lists=True)
    for i in range(0, len(g), n):
        yield dict(kind="group", base=0, seqs=g[i:i + n])
    g = [t for t in g if len(t) <= (2 if tier == "quick" else 3) and ("corr" in t or "corrS" in t)]
    for base in (1, 2, 3, 4):
        for i in range(0, len(g), n):
            yield dict(kind="group", base=base, seqs=g[i:i + n])


def logn(x, mu, s):
    x, mu, s = np.broadcast_arrays(np.asarray(x, float), np.asarray(mu, float), np.asarray(s, float))
    return float(np.sum(-0.5 * ((x - mu) / s) ** 2 - np.log(s) - 0.5 * math.log(2 * math.pi)))


def on_plane(ref, p, Z):
    d = ref.space_ray(p)
    t = (Z - ref.t[2]) / d[2]
    return ref.t + t * d if t > 0 else np.full(3, np.nan)


def height(ref, f, h):
    foot = on_plane(ref, f, 0)
    d = ref.space_ray(h)
    t = d[:2] @ (foot - ref.t)[:2] / (d[:2] @ d[:2])
    return (ref.t + t * d)[2] - foot[2] if t >= 0 else np.nan


def length(ref, f, b, Z):
    return np.linalg.norm(on_plane(ref, f, Z) - on_plane(ref, b, Z))


def landmark(ref, pix, pos, unc):
    unc = np.broadcast_to(np.asarray(unc, float), np.shape(pos)) if np.ndim(unc) else np.full(np.shape(pos), float(unc))
    off = np.linspace(-2 * unc_max(unc), 2 * unc_max(unc), 1000)
    total = 0
    for p, q, u in zip(pix, pos, unc):
        d = ref.space_ray(p)
        near = ref.t + d * (d @ (q - ref.t))
        s = np.linalg.norm(near - ref.t) + off
        total += logn(ref.t[None] + s[:, None] * d[None], q, u)
    return total


def unc_max(u):
    return float(np.max(u))


def gps_space(g, lat, lon):
    out = []
    for p in g:
        d = arc((lat, lon), p[:2]) * R_EARTH
        la, lo, lb, lp = (math.radians(v) for v in (lat, lon, p[0], p[1]))
        b = math.atan2(math.sin(lp - lo) * math.cos(lb), math.cos(la) * math.sin(lb) - math.sin(la) * math.cos(lb) * math.cos(lp - lo))
        out.append([d * math.sin(b), d * math.cos(b), p[2]])
    return np.array(out)


def horizon(ref, xs):
    d = math.sqrt(2 * R_EARTH ** 2 * (1 - R_EARTH / (R_EARTH + ref.t[2])))
    rows = []
    for x in xs:
        z = np.array([abs(ref.t[2] + d * ref.space_ray((x, y))[2]) for y in range(int(ref.h))])
        rows.append(np.nanargmin(z))
    return np.array(rows, float)


class Handed:
    """the camera gets copies, as arrays or as lists, which are overwritten afterwards"""
    lists = False

    def __init__(self):
        self.given = []

    def __call__(self, a):
        a = np.array(a, float)
        if self.lists:
            a = a.tolist()
        self.given.append(a)
        return a

    def spoil(self):
        for a in self.given:
            a[:] = [np.full(np.shape(x), 1e3).tolist() for x in a]
        self.given = []


class CameraWorld:
    def __init__(self, b):
        self.s = dict(lens="none", coef=(0., 0., 0.))
        self.s.update(BASE[b])
        self.cam = camera(self.s)
        self.lat, self.lon = 0., 0.
        self.var = [ct.FitParameter("var%d" % i, lower=0.1, upper=10, value=1.5) for i in range(2)]
        self.v = [1.5, 1.5]
        self.terms, self.cp = [], Handed()
        self._ref = {}

    def ref(self):
        key = repr(sorted(self.s.items()))
        if key not in self._ref:
            self._ref = {key: refcam(self.s)}
        return self._ref[key]

    def apply(self, op):
        cam, s, cp = self.cam, self.s, self.cp
        add = lambda *t: self.terms.append(t)
        if op == "height":
            cam.addObjectHeightInformation(cp(FEET), cp(HEAD), 1.5, 0.4)
            add("height", FEET, HEAD, 1.5, 0.4)
        elif op == "height1":
            cam.addObjectHeightInformation(cp(FEET[0]), cp(HEAD[0]), 2., 1.)
            add("height", FEET[:1], HEAD[:1], 2., 1.)
        elif op == "heightN":
            cam.addObjectHeightInformation(cp(FEET), cp(HEAD), cp([1., 2., 3.]), cp([0.3, 0.5, 1.1]))
            add("height", FEET, HEAD, np.array([1., 2., 3.]), np.array([0.3, 0.5, 1.1]))
        elif op == "heightV":
            cam.addObjectHeightInformation(cp(FEET), cp(HEAD), 1.2, self.var[0])
            add("height", FEET, HEAD, 1.2, "v0")
        elif op == "heightP":
            cam.addObjectHeightInformation(cp(FEET), cp(HEAD), 9., 0.1, only_plot=True)
        elif op == "length":
            cam.addObjectLengthInformation(cp(FEET), cp(FEET[::-1]), 5., 3.)
            add("length", FEET, FEET[::-1], 5., 3., 0)
        elif op == "lengthN":
            cam.addObjectLengthInformation(cp(FEET), cp(HEAD), cp([4., 5., 6.]), cp([3., 4., 5.]), Z=1.3)
            add("length", FEET, HEAD, np.array([4., 5., 6.]), np.array([3., 4., 5.]), 1.3)
        elif op == "lengthV":
            cam.addObjectLengthInformation(cp(FEET), cp(FEET[[1, 2, 0]]), 5., self.var[1], Z=-0.5)
            add("length", FEET, FEET[[1, 2, 0]], 5., "v1", -0.5)
        elif op == "lengthP":
            cam.addObjectLengthInformation(cp(FEET), cp(HEAD), 5., self.var[1], only_plot=True)
        elif op == "lm":
            cam.addLandmarkInformation(cp(LM_I), cp(LM_S), cp([3., 3., 5.]))
            add("lm", LM_I, LM_S, [3., 3., 5.])
        elif op == "lm1":
            cam.addLandmarkInformation(cp(LM_I[0]), cp(LM_S[0]), 4.)
            add("lm", LM_I[:1], LM_S[:1], 4.)
        elif op == "lmN":
            u = np.array([[1., 2., 2.5], [3., 4., 5.]])
            cam.addLandmarkInformation(cp(LM_I), cp(LM_S), cp(u))
            add("lm", LM_I, LM_S, u)
        elif op == "lmP":
            cam.addLandmarkInformation(cp(LM_I), cp(LM_S), 1., only_plot=True)
        elif op == "gps":
            cam.addLandmarkInformationGPS(cp(LM_I), cp(LM_G), cp([3., 3., 5.]))
            add("gps", LM_I, LM_G, [3., 3., 5.])
        elif op == "gpsN":
            u = np.array([[2., 3., 4.], [1., 2., 7.5]])
            cam.addLandmarkInformationGPS(cp(LM_I), cp(LM_G), cp(u))
            add("gps", LM_I, LM_G, u)
        elif op == "gpsP":
            cam.addLandmarkInformationGPS(cp(LM_I), cp(LM_G), cp([3., 3., 5.]), only_plot=True)
        elif op == "hor":
            cam.addHorizonInformation(cp(HOR), 10.)
            add("hor", HOR, 10.)
        elif op == "horN":
            cam.addHorizonInformation(cp(HOR), cp([5., 10., 20.]))
            add("hor", HOR, np.array([5., 10., 20.]))
        elif op == "horP":
            cam.addHorizonInformation(cp(HOR), 1., only_plot=True)
        elif op == "custom":
            cam.addCustomoLogProbability(lambda: -0.5 * (cam.tilt_deg - 70) ** 2)
            add("custom",)
        elif op == "twice":         # the same function for two terms, information with the same content twice
            f = lambda: -0.5 * (cam.tilt_deg - 70) ** 2
            for _ in range(2):
                cam.addCustomoLogProbability(f)
                add("custom",)
                cam.addHorizonInformation(cp(HOR), 10.)
                add("hor", HOR, 10.)
        elif op == "customP":
            cam.addCustomoLogProbability(lambda: -1.25 * self.var[0].value, [self.var[0]])
            add("customv",)
        elif op == "clear":
            cam.clearLogProbability()
            self.terms = []
        elif op == "tilt":
            cam.tilt_deg = s["tilt"] = s["tilt"] - 3.
        elif op == "elev":
            cam.orientation.elevation_m = e = s["pos"][2] + 2.5
            s["pos"] = (*s["pos"][:2], e)
        elif op == "focal":
            cam.focallength_x_px = s["fx"] = s["fx"] + 50.
        elif op == "undef":
            cam.tilt_deg = s["tilt"] = 120. if s["tilt"] < 100 else 80.
        elif op == "lat":
            cam.gps_lat = self.lat = self.lat + 1e-5
            cam.gps_lon = self.lon = self.lon - 2e-5
        elif op == "setV":
            self.v[0] += 0.7
            self.v[1] -= 0.3
            self.var[0].set_value(self.v[0])
            self.var[1].set_value(self.v[1])
        elif op == "fitset":
            s["heading"] += 1.5
            cam.parameters.set_fit_parameters(["heading_deg", "roll_deg"], [s["heading"], 0.5])
            s["roll"] = 0.5
        elif op == "lens":
            if s["lens"] == "brown":
                cam.k1 = 0.08
                s["coef"] = (0.08, 0., 0.)
        cp.spoil()

    def expect(self):
        ref = self.ref()
        total = 0.
        for t in self.terms:
            total += self.term(ref, t)
        return total

    def term(self, ref, t):
        var = lambda v: self.v[int(v[1])] if isinstance(v, str) else v
        if t[0] == "height":
            return logn([height(ref, f, h) for f, h in zip(t[1], t[2])], t[3], var(t[4]))
        if t[0] == "length":
            return logn([length(ref, f, h, t[5]) for f, h in zip(t[1], t[2])], t[3], var(t[4]))
        if t[0] == "lm":
            return landmark(ref, t[1], t[2], t[3])
        if t[0] == "gps":
            return landmark(ref, t[1], gps_space(t[2], self.lat, self.lon), t[3])
        if t[0] == "hor":
            return logn(t[1][:, 1] - horizon(ref, t[1][:, 0]), 0, t[2])
        if t[0] == "custom":
            return -0.5 * (self.s["tilt"] - 70) ** 2
        return -1.25 * self.v[0]


_TERMS = {}


def compare(rec, got, want, what):
    if np.isnan(want):
        rec.check(got == -np.inf, lambda: "%s: the log-probability is %s although a term is undefined" % (what, got))
    else:
        rec.check(np.isfinite(got) and abs(got - want) <= 1e-4 + 2e-6 * abs(want), lambda: "%s: the log-probability is %s, the sum of its terms is %s" % (what, got, want))


def run_camera(c, rec):
    for seq in c["seqs"]:
        w = CameraWorld(c["base"])
        w.cp.lists = len(seq) == 1 and c.get("lists", False)
        compare(rec, w.cam.getLogProbability(), 0., "without information")
        for i, op in enumerate(seq):
            w.apply(op)
            key = (c["base"], tuple(seq[:i + 1]))
            if key not in _TERMS:
                if len(_TERMS) > 20000:
                    _TERMS.clear()
                _TERMS[key] = w.expect()
            want = _TERMS[key]
            compare(rec, w.cam.getLogProbability(), want, "camera %d after %s" % (c["base"], seq[:i + 1]))
            rec.step()
            rec.state(key)
            rec.outcome("nan" if np.isnan(want) else round(want, 1))
        # evaluating does not change anything
        compare(rec, w.cam.getLogProbability(), want, "camera %d after %s, evaluated again" % (c["base"], seq))
        rec.trace()


C1, C2 = np.array([[300., 300.], [420., 350.], [200., 310.]]), np.array([[310., 305.], [425., 340.], [215., 312.]])


class GroupWorld:
    def __init__(self, base=0):
        self.p = dict(fx=900., fy=950., cx=320., cy=240., w=640, h=480)
        self.o = [dict(tilt=80., roll=1., heading=2., pos=(-2., 0., 10.)), dict(tilt=79., roll=-1., heading=-3., pos=(2., 0., 11.))]
        self.along = (8., 20.) if base == 2 else (30., 60.)      # in front of both cameras
        if base == 1:      # the second camera is some steps ahead
            self.o[1].update(pos=(-1., 6., 10.5))
        elif base in (3, 4):    # the second camera is exactly one or two metres ahead along the optical axis
            self.o[0].update(tilt=90.)
            self.o[1].update(tilt=90., heading=2., roll=1., pos=(-2. + (base - 2) * math.sin(math.radians(2.)), (base - 2) * math.cos(math.radians(2.)), 10.))
        elif base == 2:    # the cameras face each other
            self.o[1].update(pos=(-1., 50., 10.), heading=176.)
        self.g = ct.CameraGroup(projection("rect", **self.p), [ct.SpatialOrientation(elevation_m=o["pos"][2], tilt_deg=o["tilt"], roll_deg=o["roll"], heading_deg=o["heading"], pos_x_m=o["pos"][0], pos_y_m=o["pos"][1]) for o in self.o])
        self.gt, self.ct, self.cp = [], [[], []], Handed()

    def refs(self):
        return [RefCam("rect", self.p["fx"], self.p["fy"], 320., 240., 640, 480, **o) for o in self.o]

    def apply(self, op):
        g, cp = self.g, self.cp
        if op == "base":
            g.addBaselineInformation(4.5, 0.8)
            self.gt.append(("base", 4.5, 0.8))
        elif op == "base2":
            g.addBaselineInformation(3.)
            self.gt.append(("base", 3., 6))
        elif op == "corr":
            g.addPointCorrespondenceInformation(cp(C1), cp(C2), 3.)
            self.gt.append(("corr", C1, C2, 3.))
        elif op == "corrS":
            g.addPointCorrespondenceInformation(cp(C1[:2]), cp(C2[:2]))
            self.gt.append(("corr", C1[:2], C2[:2], 1.))
        elif op == "gcustom":
            g.addCustomoLogProbability(lambda: -0.1 * g[1].pos_x_m ** 2)
            self.gt.append(("custom",))
        elif op == "c0height":
            g[0].addObjectHeightInformation(cp(FEET), cp(HEAD), 1.5, 0.8)
            self.ct[0].append("height")
        elif op == "c1lm":
            g[1].addLandmarkInformation(cp(LM_I), cp(LM_S), cp([3., 3., 5.]))
            self.ct[1].append("lm")
        elif op == "c0nan":
            g[0].addCustomoLogProbability(lambda: np.nan)
            self.ct[0].append("nan")
        elif op == "gclear":
            g.clearLogProbability()
            self.gt = []
        elif op == "c0clear":
            g[0].clearLogProbability()
            self.ct[0] = []
        elif op == "pos1":
            g.C1_pos_x_m = x = self.o[1]["pos"][0] + 0.4
            g[1].pos_y_m = y = self.o[1]["pos"][1] - 0.3
            self.o[1]["pos"] = (x, y, self.o[1]["pos"][2])
        elif op == "tilt0":
            g.C0_tilt_deg = self.o[0]["tilt"] = self.o[0]["tilt"] - 0.5
        elif op == "focal":
            g.focallength_x_px = self.p["fx"] = self.p["fx"] + 20.
        elif op == "heading1":
            self.o[1]["heading"] += 0.5
            g.parameters.set_fit_parameters(["C1_heading_deg"], [self.o[1]["heading"]])
        cp.spoil()

    def expect(self):
        r = self.refs()
        total = 0.
        cams = [0., 0.]
        for t in self.gt:
            if t[0] == "base":
                total += logn(math.hypot(*(r[0].t - r[1].t)[:2]), t[1], t[2])
            elif t[0] == "custom":
                total += -0.1 * r[1].t[0] ** 2
            else:
                for i in (0, 1):
                    for a, b in zip(t[1 + i], t[2 - i]):
                        d = r[i].space_ray(a)
                        p, q = (r[1 - i].project(r[1 - i].cam_from_space(r[i].t + d * s)) for s in self.along)
                        u = q - p
                        total += logn(abs(u[0] * (b - p)[1] - u[1] * (b - p)[0]) / np.linalg.norm(u), 0, t[3])
        for i in (0, 1):
            for t in self.ct[i]:
                if t == "height":
                    cams[i] += logn([height(r[i], f, h) for f, h in zip(FEET, HEAD)], 1.5, 0.8)
                elif t == "lm":
                    cams[i] += landmark(r[i], LM_I, LM_S, [3., 3., 5.])
                else:
                    cams[i] += np.nan
        return total + sum(cams), cams


def run_group(c, rec):
    for seq in c["seqs"]:
        w = GroupWorld(c["base"])
        w.cp.lists = c.get("lists", False)
        compare(rec, w.g.getLogProbability(), 0., "group without information")
        for i, op in enumerate(seq):
            w.apply(op)
            key = ("g", c["base"]) + tuple(seq[:i + 1])
            if key not in _TERMS:
                if len(_TERMS) > 20000:
                    _TERMS.clear()
                _TERMS[key] = w.expect()
            want, cams = _TERMS[key]
            compare(rec, w.g.getLogProbability(), want, "group after %s" % seq[:i + 1])
            for k in (0, 1):
                compare(rec, w.g[k].getLogProbability(), cams[k], "camera %d of the group after %s" % (k, seq[:i + 1]))
            rec.step()
            rec.state(key)
            rec.outcome("nan" if np.isnan(want) else round(want, 1))
        rec.trace()


def without(a, row, col):
    a = np.array(a, float)
    a[row, slice(None) if col is None else col] = np.nan
    return a


UNDEF = {"height foot": (3, lambda c, x: c.addObjectHeightInformation(x(FEET), HEAD, 1.5, 0.4)), "height top": (3, lambda c, x: c.addObjectHeightInformation(FEET, x(HEAD), 1.5, 0.4)),
         "height value": (3, lambda c, x: c.addObjectHeightInformation(FEET, HEAD, x([[1.5, 1.], [2., 1.], [3., 1.]])[:, 0], 0.4)),
         "length front": (3, lambda c, x: c.addObjectLengthInformation(x(FEET), HEAD, 5., 3.)), "length back": (3, lambda c, x: c.addObjectLengthInformation(FEET, x(HEAD), 5., 3., Z=0.5)),
         "landmark pixel": (2, lambda c, x: c.addLandmarkInformation(x(LM_I), LM_S, 3.)), "landmark position": (2, lambda c, x: c.addLandmarkInformation(LM_I, x(LM_S), 3.)),
         "gps pixel": (2, lambda c, x: c.addLandmarkInformationGPS(x(LM_I), LM_G, 3.)), "gps position": (2, lambda c, x: c.addLandmarkInformationGPS(LM_I, x(LM_G), 3.)),
         "horizon": (3, lambda c, x: c.addHorizonInformation(x(HOR), 3.))}


def run_undefined(c, rec):
    """a single undefined point among defined ones makes the whole probability zero; once cleared, it is forgotten"""
    group = c["base"] >= len(BASE)
    for name, (rows, add) in UNDEF.items() if not group else [("correspondence %d" % i, (3, None)) for i in (0, 1)]:
        for row in range(rows):
            for col in (None, 0, 1):
                if name == "height value" and col == 1:
                    continue
                x = lambda a: without(a, row, col)
                for other in ("alone", "before", "after"):
                    o = GroupWorld(c["base"] - len(BASE)).g if group else CameraWorld(c["base"]).cam
                    good = lambda: (o.addBaselineInformation(4., 1.) if group else o.addObjectHeightInformation(FEET, HEAD, 1.5, 0.4))
                    if other == "before":
                        good()
                    if group:
                        o.addPointCorrespondenceInformation(*((x(C1), C2) if name[-1] == "0" else (C1, x(C2))), 3.)
                    else:
                        add(o, x)
                    if other == "after":
                        good()
                    p = o.getLogProbability()
                    rec.check(p == -np.inf, lambda: "camera or group %d, %s with nan in row %d column %s (%s): the log-probability is %s" % (c["base"], name, row, col, other, p))
                    o.clearLogProbability()
                    good()
                    p = o.getLogProbability()
                    rec.check(np.isfinite(p), lambda: "camera or group %d, %s with nan, cleared: the log-probability is %s" % (c["base"], name, p))
                    rec.step(2)
                    rec.trace()
                    rec.state((c["base"], name, row, col, other))
                    rec.outcome(other)


def run_many(c, rec):
    """groups of one to four cameras: information on every subset of the cameras and on the group"""
    n = c["n"]
    P = lambda i: projection("rect", fx=900. + 10 * i, fy=950., cx=320., cy=240., w=640, h=480)
    O = lambda i: ct.SpatialOrientation(elevation_m=10. + i, tilt_deg=80. - i, heading_deg=i, pos_x_m=2. * i)
    # the baseline between the first two cameras, which may stand at the same place
    if n > 1 and c["wiring"] != "shared":
        g = ct.CameraGroup(P(0), [O(i) for i in range(n)])
        for target, unc in itertools.product((0., 0.5, 3., 40), (None, 0.2, 5)):
            g.clearLogProbability()
            g.addBaselineInformation(target, *([] if unc is None else [unc]))
            for dx, dy, dz in itertools.product((0., 1e-9, 2., -40.), (0., -0.3), (0., 5.)):
                g[1].parameters.set_fit_parameters(["pos_x_m", "pos_y_m", "elevation_m"], [g[0].pos_x_m + dx, g[0].pos_y_m + dy, g[0].elevation_m + dz])
                compare(rec, g.getLogProbability(), logn(math.hypot(dx, dy), target, 6 if unc is None else unc), "baseline %s, displacement %s" % ((target, unc), (dx, dy, dz)))
                rec.step()
                rec.state(("baseline", n, target, unc, dx, dy, dz))
    for mask in range(2 ** (n + 1)):
        for order in (1, -1):
            pro = P(0) if c["wiring"] != "all" else [P(i) for i in range(n)]
            ori = [O(i) for i in range(n)] if c["wiring"] != "shared" else O(0) if n == 1 else [O(i) for i in range(n)]
            lens = [ct.BrownLensDistortion(k1=0.) for _ in range(n)] if c["wiring"] == "all" else None
            g = ct.CameraGroup(pro, ori, lens)
            want, each = 0., [0.] * n
            if mask >> n:
                g.addCustomoLogProbability(lambda: -0.5)
                want -= 0.5
            for i in range(n)[::order]:
                if mask >> i & 1:
                    g[i].addCustomoLogProbability(lambda i=i: -2. ** i)
                    g[i].addObjectHeightInformation(FEET, HEAD, 1.5, 0.8)
                    r = RefCam("rect", 900. + (10 * i if c["wiring"] == "all" else 0), 950., 320., 240., 640, 480, tilt=80. - i, roll=0., heading=i, pos=(2. * i, 0., 10. + i))
                    each[i] = -2. ** i + logn([height(r, f, h) for f, h in zip(FEET, HEAD)], 1.5, 0.8)
            w = "group of %d (%s) with information on %s" % (n, c["wiring"], [i for i in range(n + 1) if mask >> i & 1])
            compare(rec, g.getLogProbability(), want + sum(each), w)
            for i in range(n):
                compare(rec, g[i].getLogProbability(), each[i], w + ": camera %d" % i)
            g.clearLogProbability()
            compare(rec, g.getLogProbability(), sum(each), w + ", group cleared")
            for i in range(n):
                if mask >> i & 1:
                    g[i].clearLogProbability()
                    each[i] = 0.
                    compare(rec, g.getLogProbability(), sum(each), w + ", camera %d cleared" % i)
            rec.step(3)
            rec.trace()
            rec.state((n, c["wiring"], mask, order))
            rec.outcome(round(want, 2))


def run_case(c, rec):
    globals()["run_" + c["kind"]](c, rec)
