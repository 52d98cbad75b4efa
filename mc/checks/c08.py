"""C08: save and load reproduce the camera; a failing save keeps the old file."""
import itertools, json, os
import numpy as np
import cameratransform as ct
from mc.util import same
from mc.checks.c06 import observe

P = dict(rect=ct.RectilinearProjection, cyl=ct.CylindricalProjection, equi=ct.EquirectangularProjection)
TYPES = [(p, l, o) for p in P for l in ("none", "brown", "abc") for o in ("thr", "ypr")]


def build(t, variant=0):
    p, l, o = t
    f = [(50., 45.), (61.5, 70.25), (40, 40)][variant]
    lens = dict(none=lambda: ct.NoDistortion(), brown=lambda: ct.BrownLensDistortion(*[(-0.1, 0.02, None), (0.05, None, 0.01), ()][variant]),
                abc=lambda: ct.ABCDistortion(*[(0.01, None, -0.05), (None, 0.03, None), ()][variant]))[l]()
    kw = [dict(elevation_m=20., roll_deg=3.), dict(pos_x_m=-3.5, pos_y_m=7, elevation_m=12), dict()][variant]
    ang = [dict(thr=dict(tilt_deg=60., heading_deg=30.), ypr=dict(pitch_deg=-30., yaw_deg=30.)), dict(thr=dict(tilt_deg=40, heading_deg=-300.), ypr=dict(pitch_deg=-50, yaw_deg=-300.)), dict(thr={}, ypr={})][variant][o]
    ori = (ct.SpatialOrientation if o == "thr" else ct.SpatialOrientationYawPitchRoll)(**kw, **ang)
    c = ct.Camera(P[p](focallength_x_px=f[0], focallength_y_px=f[1], image=[(64, 48), (70, 33), (64, 48)][variant], **[{}, dict(center=(20.5, 14), sensor=(36, 24)), {}][variant]), ori, lens)
    if variant == 1:
        c.gps_lat, c.gps_lon = -33.25, 151.125
    return c


def edits(t):
    tilt, head = ("tilt_deg", "heading_deg") if t[2] == "thr" else ("pitch_deg", "yaw_deg")
    k = dict(none=None, brown="k2", abc="b")[t[1]]
    e = [("elevation np.float64", lambda c: setattr(c, "elevation_m", np.float64(17.3))), ("focallength_x np.float32", lambda c: setattr(c, "focallength_x_px", np.float32(51.3))),
         ("image int64", lambda c: setattr(c, "image_width_px", np.int64(60))), ("0-d array", lambda c: setattr(c, "pos_x_m", np.array(4.75))),
         ("stats", lambda c: setattr(c, "elevation_m", (33.3, 2.))), ("stats np", lambda c: setattr(c, "focallength_px", (np.float64(44.4), np.float64(2.)))),
         ("fit", lambda c: c.parameters.set_fit_parameters([tilt, "roll_deg"], np.array([35. if t[2] == "thr" else -55., 1 / 3]))),
         ("reset", lambda c: [setattr(c, n, None) for n in ("elevation_m", tilt, "center_x_px")]), ("defaults", lambda c: [setattr(c.defaults, "elevation_m", 77.), setattr(c.defaults, "pos_y_m", 5.)]),
         ("gps", lambda c: c.setGPSpos("66°39'53.4\"S 140°00'34.8\"E")), ("gps array", lambda c: c.setGPSpos(np.array([50.25, 11.5, 9.]))), ("gps numbers", lambda c: c.setGPSpos(-12.25, 170)),
         ("full turns", lambda c: setattr(c, head, 725.25)), ("negative turn", lambda c: setattr(c, head, -359.75)), ("sensor", lambda c: [setattr(c, "sensor_width_mm", 23.6), setattr(c, "sensor_height_mm", np.float64(15.7))]),
         ("zeros", lambda c: [setattr(c, n, 0) for n in ("elevation_m", "pos_x_m", "center_x_px", "center_y_px", tilt)]), ("tiny", lambda c: [setattr(c, "pos_x_m", 1e-300), setattr(c, "pos_y_m", 0.1 + 0.2), setattr(c, "elevation_m", 12345678.901234567)]),
         ("focallength_px", lambda c: setattr(c, "focallength_px", 47)), ("projection y", lambda c: setattr(c.projection, "focallength_y_px", 39.5)), ("sampled", lambda c: [setattr(c, "elevation_m", (30., 0.5)), np.random.seed(2), c.sample()])]
    if k:
        e += [("coef", lambda c: setattr(c, k, 0.015)), ("coef np", lambda c: setattr(c.lens, k, np.float64(-0.0125))), ("coef fit", lambda c: c.parameters.set_fit_parameters([k], [0.02])), ("coef none", lambda c: setattr(c, k, None))]
    return e


def shown(c):
    return {n: getattr(c, n) for n in c.parameters.parameters}


def compare(rec, got, want_cam, want, what):
    rec.check(type(got.projection) is type(want_cam.projection) and type(got.lens) is type(want_cam.lens) and type(got.orientation) is type(want_cam.orientation),
              lambda: "%s: types %s %s %s" % (what, type(got.projection).__name__, type(got.lens).__name__, type(got.orientation).__name__))
    g = shown(got)
    rec.check(set(g) == set(want), lambda: "%s: parameters %s instead of %s" % (what, sorted(g), sorted(want)))
    for n in want:
        a, b = g[n], want[n]
        a, b = float(a), float(b)
        rec.check(abs(a - b) <= 1e-12 * abs(b), lambda: "%s: %s is %r, saved was %r" % (what, n, g[n], want[n]))
    for part in ("projection", "orientation", "lens"):
        for n in getattr(got, part).parameters.parameters:
            rec.check(getattr(getattr(got, part), n) == g[n], lambda: "%s: part and camera differ in %s" % (what, n))


def same_transforms(rec, a, b, what, deep):
    tol = 1e-4 if "float32" in what else 1e-9  # a float32 value makes the camera that holds it calculate in float32
    if tol > 1e-9:
        deep = False
    for (n, x), (_, y) in zip(observe(a, deep), observe(b, deep)):
        rec.check(same(x, y, tol, tol), lambda: "%s: %s differs: %s and %s" % (what, n, np.asarray(x).tolist(), np.asarray(y).tolist()))


def target(t, v):
    """a camera that already has a life of its own"""
    c = build(t, v)
    c.focallength_px = (99., 3.)
    c.elevation_m = (5., 1.)
    c.defaults.elevation_m = 3.
    c.defaults.pos_x_m = 8.
    c.gps_lat = 12.
    c.parameters.set_fit_parameters(["center_x_px"], [3.])
    return c


def roundtrip(rec, t, variant, hist, targets, deep=False):
    fn = os.path.join(os.environ["VERIF_SCRATCH"], "cam%d.json" % os.getpid())
    src = build(t, variant)
    names = []
    for n, f in hist:
        f(src)
        names.append(n)
    want = shown(src)
    what = "%s variant %d after %s" % (t, variant, names)
    src.save(fn)
    compare(rec, src, src, want, what + " (saving changed the camera)")
    txt = open(fn).read()
    a = ct.load_camera(fn)
    compare(rec, a, src, want, what + " load_camera")
    same_transforms(rec, a, src, what + " load_camera", deep)
    for tt, tv in targets:
        b = target(tt, tv)
        b.load(fn)
        compare(rec, b, src, want, what + " loaded over %s" % (tt,))
        same_transforms(rec, b, src, what + " loaded over %s" % (tt,), deep)
        rec.step()
    # again
    a.save(fn)
    b = ct.load_camera(fn)
    compare(rec, b, src, want, what + " saved and loaded twice")
    same_transforms(rec, b, src, what + " saved and loaded twice", False)
    # the loaded camera lives on its own
    b.elevation_m = 1.25
    b.focallength_px = 77.
    compare(rec, src, src, want, what + " (source after editing the loaded camera)")
    compare(rec, a, src, want, what + " (first copy after editing the second)")
    rec.check(b.imageFromSpace([3., 20., 0.]).shape == (2,) and b.elevation_m == 1.25 and b.focallength_x_px == 77., what + ": the loaded camera cannot be edited")
    rec.check(same(b.getPos()[2], 1.25), what + ": edits of the loaded camera do not reach its transforms")
    os.remove(fn)
    rec.step(5 + len(hist))
    rec.trace(1 + len(targets))
    rec.state((t, variant, tuple(names)))
    rec.outcome(json.dumps({k: float(v) for k, v in want.items()}, sort_keys=True))


def parts(rec, t, variant):
    fn = os.path.join(os.environ["VERIF_SCRATCH"], "part%d.json" % os.getpid())
    for n_e, (name, f) in enumerate([("plain", lambda c: None)] + edits(t)):
        src = build(t, variant)
        f(src)
        tol = 1e-4 if "float32" in name else 1e-9
        for part in ("projection", "orientation", "lens"):
            for other_variant in range(3):
                s = getattr(src, part)
                want = {n: getattr(s, n) for n in s.parameters.parameters}
                s.save(fn)
                dst_cam = build(t, other_variant)
                dst = getattr(dst_cam, part)
                before = shown(dst_cam)
                dst.load(fn)
                for n in want:
                    rec.check(float(getattr(dst, n)) == float(want[n]) and float(getattr(dst_cam, n)) == float(want[n]),
                              lambda: "%s %s after %s: %s loads as %r instead of %r" % (t, part, name, n, getattr(dst, n), want[n]))
                for n in before:
                    if n not in want and n != "focallength_px":
                        rec.check(getattr(dst_cam, n) == before[n], lambda: "%s: loading the %s changed %s" % (t, part, n))
                pts = np.array([[3., 20, 1], [-4, 9, -30]])
                if part == "orientation":
                    rec.check(same(dst.cameraFromSpace(pts), s.cameraFromSpace(pts), 1e-9, 1e-9), "%s after %s: loaded orientation transforms differently" % (t, name))
                elif part == "projection":
                    rec.check(same(dst.imageFromCamera(pts), s.imageFromCamera(pts), tol, tol), "%s after %s: loaded projection transforms differently" % (t, name))
                else:
                    rec.check(same(dst.distortedFromImage(pts[:, :2]), s.distortedFromImage(pts[:, :2]), tol, tol) and same(dst.imageFromDistorted(pts[:, :2]), s.imageFromDistorted(pts[:, :2]), tol, tol),
                              "%s after %s: loaded lens transforms differently" % (t, name))
                rec.step(2)
                rec.trace()
                rec.states += 1
    os.remove(fn)


BAD = [("object", lambda: object()), ("complex", lambda: 1 + 2j), ("set", lambda: {1}), ("bytes", lambda: b"x"), ("function", lambda: len), ("array", lambda: np.array([1., 2., 3.])), ("np.complex", lambda: np.complex128(1j)),
       ("class", lambda: dict), ("nested", lambda: [1, object()]), ("keys", lambda: {(1, 2): 3})]


def faults(rec, t):
    fn = os.path.join(os.environ["VERIF_SCRATCH"], "old%d.json" % os.getpid())
    base = build(t, 1)
    for name in base.parameters.parameters:
        for bname, mk in BAD:
            for whole in (True, False):
                cam = build(t, 0)
                obj = cam
                if not whole:
                    owner = [p for p in ("lens", "orientation", "projection") if name in getattr(cam, p).parameters.parameters]
                    if not owner:
                        continue
                    obj = getattr(cam, owner[-1])
                old = base if whole else getattr(base, owner[-1])
                old.save(fn)
                content = open(fn).read()
                try:
                    setattr(cam, name, mk())
                except Exception:
                    pass  # rejecting the value when it is assigned is fine
                try:
                    obj.save(fn)
                    failed = False
                except Exception:
                    failed = True
                rec.step(2)
                rec.trace()
                rec.states += 1
                rec.outcome((failed, bname))
                now = open(fn).read()
                if failed:
                    rec.check(now == content, lambda: "%s: a failing save of %s (%s = %s) destroyed the existing file (%d of %d bytes left)" % (t, "the camera" if whole else owner[-1], name, bname, len(now), len(content)))
                    if whole and name == "gps_lat":
                        a = ct.load_camera(fn)
                        compare(rec, a, base, shown(base), "the old file after a failing save")
    os.remove(fn)


ASSUMPTIONS = ["faults are values that cannot be stored as JSON; a crash of the operating system during the write is outside the statement"]
BOUNDS = {"quick": "18 camera types x 3 variants x all histories of length <=1 and 18 x all of length 2 over 20-24 edits (python, numpy, statistics, fit, defaults, GPS), loaded into fresh cameras and over other types; all 18x18 source/target type pairs; parts; 10 unstorable values x every parameter x camera/part",
          "thorough": "all histories of length 2 for 3 variants, over 6 target types, all with the deep observation; length 3 for 6 types"}
CHUNK = 1


def cases(tier):
    for ti in range(len(TYPES)):
        for v in range(3):
            yield dict(kind="one", t=ti, v=v, tier=tier)
    for ti in range(len(TYPES)):
        yield dict(kind="pairs", t=ti)
        yield dict(kind="parts", t=ti)
        yield dict(kind="faults", t=ti)
    for ti in range(len(TYPES)):
        for v in range(1 if tier == "quick" else 3):
            for k in range(len(edits(TYPES[ti]))):
                yield dict(kind="two", t=ti, v=v, first=k, tier=tier)
    if tier == "thorough":
        for ti in range(0, len(TYPES), 3):
            for k in range(len(edits(TYPES[ti]))):
                yield dict(kind="three", t=ti, first=k)


def run_case(c, rec):
    t = TYPES[c["t"]]
    e = edits(t)
    if c["kind"] == "one":
        roundtrip(rec, t, c["v"], [], [(TYPES[(c["t"] + 7) % 18], 0)], True)
        for x in e:
            roundtrip(rec, t, c["v"], [x], [(TYPES[(c["t"] + 5) % 18], 1), (t, 2)], c["v"] == 0)
    elif c["kind"] == "pairs":
        for v in range(3):
            roundtrip(rec, t, v, [e[0]], [(tt, tv) for tt in TYPES for tv in range(2)])
    elif c["kind"] == "parts":
        for v in range(3):
            parts(rec, t, v)
    elif c["kind"] == "faults":
        faults(rec, t)
    elif c["kind"] == "two":
        for k, y in enumerate(e):
            roundtrip(rec, t, c["v"], [e[c["first"]], y], [(TYPES[(c["t"] + 1 + 4 * j + k) % 18], k % 3) for j in range(1 if c["tier"] == "quick" else 6)], c["tier"] != "quick")
    else:
        for x, y in itertools.product(e, repeat=2):
            roundtrip(rec, t, 0, [e[c["first"]], x, y], [(TYPES[(c["t"] + 11) % 18], 0)])
