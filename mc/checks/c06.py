"""C06: after any edit history every transform equals that of a camera freshly built from the values shown."""
import itertools, os
import numpy as np
import pandas as pd
import cameratransform as ct
from mc.ref import RefCam
from mc.util import same

PROJ = dict(rect=ct.RectilinearProjection, cyl=ct.CylindricalProjection, equi=ct.EquirectangularProjection)
SPC = np.array([[3, 20, 0], [10, 40, 1], [-20, 60, -3], [5, 9, 2], [33, -44, 5]], float)
IMG = np.array([[31, 25], [10, 40], [1, 30], [60, 44], [40, 33]], float)
PIC = (np.arange(48)[:, None] * 5 + np.arange(64)[None] * 3).astype(np.uint8)
PN = ["focallength_x_px", "focallength_y_px", "center_x_px", "center_y_px", "image_width_px", "image_height_px", "sensor_width_mm", "sensor_height_mm"]


def build(cfg, f=50., tilt=60.):
    if cfg["lens"] == "none":
        lens = ct.NoDistortion()
    elif cfg["lens"] == "brown":
        lens = ct.BrownLensDistortion(-0.1, 0.02, None)
    else:
        lens = ct.ABCDistortion(0.01, None, -0.05)
    ori = ct.SpatialOrientation(tilt_deg=tilt, heading_deg=30.) if cfg["ori"] == "thr" else ct.SpatialOrientationYawPitchRoll(yaw_deg=30., pitch_deg=tilt - 90)
    kw = dict(view_x_deg=60., image=(64, 48)) if cfg.get("fov") else dict(focallength_x_px=f, focallength_y_px=45., image=(64, 48))
    return ct.Camera(PROJ[cfg["proj"]](**kw), ori, lens)


def fresh(cam):
    """a new camera with the values shown by this one"""
    p, o, l = cam.projection, cam.orientation, cam.lens
    proj = type(p)(**{n: getattr(cam, n) for n in PN})
    ori = type(o)(**{n: getattr(cam, n) for n in o.parameters.parameters})
    names = [n for n in ("k1", "k2", "k3", "a", "b", "c") if n in l.parameters.parameters]
    lens = type(l)(*[getattr(cam, n) for n in names])
    c = ct.Camera(proj, ori, lens)
    c.gps_lat, c.gps_lon = cam.gps_lat, cam.gps_lon
    return c


def refmodel(cam):
    kind = {ct.RectilinearProjection: "rect", ct.CylindricalProjection: "cyl", ct.EquirectangularProjection: "equi"}[type(cam.projection)]
    lk, coef = "none", (0, 0, 0)
    if isinstance(cam.lens, ct.BrownLensDistortion):
        lk, coef = "brown", (cam.k1, cam.k2, cam.k3)
    elif isinstance(cam.lens, ct.ABCDistortion):
        lk, coef = "abc", (cam.a, cam.b, cam.c)
    if isinstance(cam.orientation, ct.SpatialOrientationYawPitchRoll):
        ang = dict(tilt=cam.pitch_deg + 90, roll=-cam.roll_deg, heading=cam.yaw_deg)
    else:
        ang = dict(tilt=cam.tilt_deg, roll=cam.roll_deg, heading=cam.heading_deg)
    return RefCam(kind, cam.focallength_x_px, cam.focallength_y_px, cam.center_x_px, cam.center_y_px, cam.image_width_px, cam.image_height_px,
                  lk, coef, pos=(cam.pos_x_m, cam.pos_y_m, cam.elevation_m), **ang)


def observe(c, deep):
    out = [("imageFromSpace", c.imageFromSpace(SPC)), ("imageFromSpace(back)", c.imageFromSpace(SPC, hide_backpoints=False)),
           ("spaceFromImage", c.spaceFromImage(IMG, D=7)), ("getRay", c.getRay(IMG, normed=True)[1]), ("getPos", c.getPos()),
           ("cameraFromSpace", c.orientation.cameraFromSpace(SPC)), ("spaceFromCamera", c.orientation.spaceFromCamera(SPC)),
           ("imageFromCamera", c.projection.imageFromCamera(SPC * [1, 1, -1] - [0, 0, 9])), ("projection.getRay", c.projection.getRay(IMG)),
           ("distortedFromImage", c.lens.distortedFromImage(IMG)), ("imageFromDistorted", c.lens.imageFromDistorted(IMG)),
           ("fov", np.array(c.projection.getFieldOfView())), ("focallengthFromFOV", np.array([c.projection.focallengthFromFOV(view_x=40), c.projection.focallengthFromFOV(view_y=40)])),
           ("imageFromFOV", np.array([c.projection.imageFromFOV(view_x=40), c.projection.imageFromFOV(view_y=40)])),
           ("gpsFromSpace", c.gpsFromSpace(SPC)), ("spaceFromGPS", c.spaceFromGPS(np.array([[50., 10, 3], [51, 11, 2.]]))), ("distanceToHorizon", np.array(c.distanceToHorizon()))]
    if deep:
        out += [("getImageBorder", c.getImageBorder(9)), ("getCameraCone", c.getCameraCone()), ("getImageHorizon", c.getImageHorizon()),
                ("getObjectHeight", c.getObjectHeight(IMG, IMG - [0, 9])), ("getObjectLength", c.getObjectLength(IMG, IMG[::-1])), ("generateLUT", c.generateLUT()),
                ("getTopViewOfImage", c.getTopViewOfImage(PIC, extent=[-20, 20, 5, 40], scaling=3, skip_size_check=True)),
                ("undistortImage", c.undistortImage(PIC, skip_size_check=True))]
    return out


def part_loader(which, scratch):
    def act(c):
        fn = os.path.join(scratch, "p%d.json" % os.getpid())
        part = getattr(c, which)
        if which == "projection":
            other = type(part)(focallength_x_px=61., focallength_y_px=47., image=(64, 48), center=(30, 22))
        elif which == "orientation":
            other = type(part)(elevation_m=17., roll_deg=4., pos_x_m=1.5)
        else:
            names = [n for n in ("k1", "a") if n in part.parameters.parameters]
            other = type(part)(*[0.03 for n in names])
        other.save(fn)
        part.load(fn)
    return act


def cam_loader(cfg, scratch):
    def act(c):
        fn = os.path.join(scratch, "c%d.json" % os.getpid())
        o = build(cfg, 66., 50.)
        o.gps_lat, o.gps_lon = 50.5, 10.25
        o.save(fn)
        c.load(fn)
    return act


def sett(obj, name, v):
    """assignment by path: cam / projection / orientation / lens / parameters"""
    def act(c):
        t = c
        for p in obj.split("."):
            if p:
                t = getattr(t, p)
        setattr(t, name, v)
    return act


def actions(cfg, scratch):
    a = {}
    A = lambda n, f: a.__setitem__(n, f)
    A("cam.focallength_px=70", sett("", "focallength_px", 70.))
    A("cam.focallength_x_px=60", sett("", "focallength_x_px", 60.))
    A("projection.focallength_y_px=65", sett("projection", "focallength_y_px", 65.))
    A("projection.focallength_px=40", sett("projection", "focallength_px", 40.))
    A("fit focallength_px=55", lambda c: c.parameters.set_fit_parameters(["focallength_px"], [55.]))
    A("cam.center_x_px=28", sett("", "center_x_px", 28.))
    A("projection.center_y_px=None", sett("projection", "center_y_px", None))
    A("projection.parameters.center_y_px=20", sett("projection.parameters", "center_y_px", 20.))
    A("defaults.center_y_px=23", lambda c: setattr(c.defaults, "center_y_px", 23.))
    A("cam.image_width_px=50", sett("", "image_width_px", 50))
    A("projection.image_height_px=30", sett("projection", "image_height_px", 30))
    A("cam.focallength_x_px=(58,1)", sett("", "focallength_x_px", (58., 1.)))
    A("cam.elevation_m=12", sett("", "elevation_m", 12.))
    A("orientation.elevation_m=(50,2)", sett("orientation", "elevation_m", (50., 2.)))
    A("orientation.elevation_m=None", sett("orientation", "elevation_m", None))
    A("orientation.defaults.elevation_m=55", lambda c: setattr(c.orientation.defaults, "elevation_m", 55.))
    A("cam.roll_deg=10", sett("", "roll_deg", 10.))
    A("parameters.pos_x_m=4", sett("parameters", "pos_x_m", 4.))
    A("cam.pos_y_m=(3,1)", sett("", "pos_y_m", (3., 1.)))
    thr = cfg["ori"] == "thr"
    t, h = ("tilt_deg", "heading_deg") if thr else ("pitch_deg", "yaw_deg")
    off = 0 if thr else -90

    def on(names, f):
        """the attribute exists only on one orientation type; after a load of another type it is another attribute"""
        def act(c):
            n = [x for x in names if x in c.orientation.parameters.parameters][0]
            f(c, n, -90 if n == "pitch_deg" else 0)
        return act
    T, H = ("tilt_deg", "pitch_deg"), ("heading_deg", "yaw_deg")
    A("cam.tilt=40", on(T, lambda c, n, o: setattr(c, n, 40. + o)))
    A("orientation.tilt=None", on(T, lambda c, n, o: setattr(c.orientation, n, None)))
    A("cam.defaults.tilt=25", on(T, lambda c, n, o: setattr(c.defaults, n, 25. + o)))
    A("cam.tilt=400", on(T, lambda c, n, o: setattr(c, n, 400. + o)))
    A("cam.heading=400", on(H, lambda c, n, o: setattr(c, n, 400.)))
    A("orientation.heading=-725", on(H, lambda c, n, o: setattr(c.orientation, n, -725.)))
    A("fit heading=-10,tilt=33", lambda c: [on(H, lambda c, n, o: c.parameters.set_fit_parameters([n, "roll_deg"], [-10., 3.]))(c),
                                            on(T, lambda c, n, o: c.orientation.parameters.set_fit_parameters({n: 33. + o}))(c)])
    A("set_to_mean", lambda c: c.set_to_mean())
    A("sample", lambda c: c.sample())
    A("trace", lambda c: c.set_trace(pd.DataFrame(dict(elevation_m=[20., 21., 22.], focallength_x_px=[51., 52., 53.], probability=[-3., -1., -2.]), index=[5, 6, 7])))
    A("setGPSpos", lambda c: c.setGPSpos(50.0, 10.0, 44.))
    A("setGPSpos(str)", lambda c: c.setGPSpos("66°39'53.4\"S 140°00'34.8\""))
    A("rotateSpace", lambda c: c.rotateSpace(25.))

    def onl(f):
        def act(c):
            n = [x for x in ("k1", "a") if x in c.lens.parameters.parameters]
            if n:
                f(c, n[0])
        return act
    if cfg["lens"] != "none":
        A("lens.k1=0.05", onl(lambda c, n: setattr(c.lens, n, 0.05)))
        A("cam.k1=-0.07", onl(lambda c, n: setattr(c, n, -0.07)))
        A("lens.k1=None", onl(lambda c, n: setattr(c.lens, n, None)))
        A("defaults.k1=0.04", onl(lambda c, n: setattr(c.defaults, n, 0.04)))
        A("fit k1=0.06", onl(lambda c, n: c.parameters.set_fit_parameters([n], [0.06])))
        A("cam.k1=(0.08,0.01)", onl(lambda c, n: setattr(c, n, (0.08, 0.01))))
        A("lens.focallength_x_px=48", onl(lambda c, n: setattr(c.lens, "focallength_x_px", 48.)))
        A("lens.center_x_px=26", onl(lambda c, n: setattr(c.lens, "center_x_px", 26.)))
    A("projection.load", part_loader("projection", scratch))
    A("orientation.load", part_loader("orientation", scratch))
    A("lens.load", part_loader("lens", scratch))
    nxt = dict(proj=dict(rect="cyl", cyl="equi", equi="rect")[cfg["proj"]], lens=dict(none="brown", brown="abc", abc="none")[cfg["lens"]], ori="ypr" if thr else "thr")
    A("cam.load(other type)", cam_loader(nxt, scratch))
    return a


def compare(rec, cam, hist, deep=False):
    for part in ("projection", "orientation", "lens"):
        P = getattr(cam, part)
        for n in P.parameters.parameters:
            v, w, x = getattr(cam, n), getattr(P, n), getattr(P.parameters, n)
            rec.check(np.all(v == w) and np.all(w == x), lambda: "%s: camera shows %s=%s, its %s shows %s" % (hist, n, v, part, w))
    rec.check(cam.focallength_px == cam.focallength_x_px, lambda: "%s: focallength_px %s is not focallength_x_px %s" % (hist, cam.focallength_px, cam.focallength_x_px))
    f = fresh(cam)
    for (n, got), (_, want) in zip(observe(cam, deep), observe(f, deep)):
        rec.check(same(got, want, 1e-7, 1e-7), lambda: "%s: %s is %s, a camera with the values shown gives %s" % (hist, n, np.asarray(got).tolist(), np.asarray(want).tolist()))
    rec.check(str(cam) == str(f), lambda: "%s: the camera prints as %s, a camera with the values shown as %s" % (hist, cam, f))
    ref = refmodel(cam)
    got = cam.imageFromSpace(SPC)
    want = np.array([ref.image(p) for p in SPC])
    fin = np.isfinite(want).all(axis=1)
    rec.check(same(np.asarray(got)[fin], want[fin], 1e-6, 1e-5), lambda: "%s: imageFromSpace is %s, the reference model with the values shown gives %s" % (hist, np.asarray(got).tolist(), want.tolist()))
    rec.outcome(np.round(np.nan_to_num(np.asarray(got)), 3).tolist())
    rec.step()


def state_key(cam):
    return (type(cam.projection).__name__, type(cam.lens).__name__, type(cam.orientation).__name__, tuple(repr(getattr(cam, n)) for n in cam.parameters.parameters))


CONFIGS = [dict(proj=p, lens=l, ori=o) for p in ("rect", "cyl", "equi") for l in ("none", "brown", "abc") for o in ("thr", "ypr")] + [dict(proj="rect", lens="brown", ori="thr", fov=1), dict(proj="equi", lens="abc", ori="thr", fov=1)]
D3 = {"quick": [2], "thorough": list(range(len(CONFIGS)))}
ASSUMPTIONS = ["the fresh camera is built by the constructors from the values shown and additionally compared with an independent reference model (mc/ref.py)",
               "sharing one lens object between different projections is outside the property (the lens belongs to one camera's projection)"]
BOUNDS = {"quick": "20 camera configurations x all histories of length <=2 over ~45 edit operations (observed after every step and only at the end), 1 configuration to length 3 over 23 operations; after every fourth edit, every parameter changed by relative 1e-4 and 4e-6; every parameter given as distribution of 5 means (zero included), drawn and set back; every part without a camera: all histories of length <=2 of the edits of all its parameters; 6 camera groups x all ordered pairs of group parameters changed by one call of 5 kinds; two cameras sharing a projection and/or an orientation: all histories of length 2 of edits on either",
          "thorough": "all 20 configurations to length 3, 4 sharing configurations to length 3"}
CHUNK = 1
SHARE = [dict(share=s, lens=(a, b)) for s in (("projection",), ("orientation",), ("projection", "orientation")) for a, b in (("brown", "abc"), ("abc", "abc"), ("brown", "brown"), ("none", "brown"))]


def cases(tier):
    for i in range(len(CONFIGS)):
        n = len(actions(CONFIGS[i], "/"))
        for k in range(n):
            yield dict(kind="hist", cfg=i, first=k, depth=2)
    for i in range(len(CONFIGS)):
        yield dict(kind="nudge", cfg=i, tier=tier)
        yield dict(kind="dist", cfg=i)
    for i in range(len(GROUPS)):
        yield dict(kind="group", cfg=i)
    for i in range(len(ALONE)):
        yield dict(kind="alone", part=i, depth=2 if tier == "quick" else 3)
    for i in range(len(SHARE)):
        for k in range(30):
            yield dict(kind="share", cfg=i, first=k, depth=2)
    for i in D3[tier]:
        n = len(actions(CONFIGS[i], "/"))
        pick = core(i) if tier == "quick" else list(range(n))
        for k in pick:
            for k2 in pick:
                yield dict(kind="hist", cfg=i, first=k, second=k2, depth=3, tier=tier)
    if tier == "thorough":
        for i in range(len(SHARE)):
            for k in range(30):
                yield dict(kind="share", cfg=i, first=k, depth=3)


# the operations of the histories of length 3 of the quick tier
CORE = ["projection.focallength_y_px=65", "cam.focallength_px=70", "defaults.center_y_px=23", "projection.center_y_px=None", "cam.image_width_px=50",
        "orientation.elevation_m=(50,2)", "orientation.elevation_m=None", "orientation.defaults.elevation_m=55", "cam.tilt=40", "orientation.tilt=None",
        "cam.heading=400", "fit heading=-10,tilt=33", "set_to_mean", "trace", "setGPSpos", "cam.k1=-0.07", "lens.k1=None", "fit k1=0.06", "lens.center_x_px=26",
        "projection.load", "orientation.load", "lens.load", "cam.load(other type)"]


def core(i):
    names = list(actions(CONFIGS[i], "/"))
    return [names.index(n) for n in CORE]


def touch(c):
    """the queries that fill any cache of the projection pipeline"""
    c.imageFromSpace(SPC)
    c.spaceFromImage(IMG, D=7)


def run_hist(cfg, acts, seq, rec, every, deep):
    np.random.seed(1)
    cam = build(cfg)
    names = []
    look = touch if len(seq) > 2 else lambda c: observe(c, deep)
    if every:
        look(cam)
    for k in seq:
        n, f = acts[k]
        names.append(n)
        f(cam)
        if every:
            look(cam)
    compare(rec, cam, "%s; %s%s" % (cfg, "; ".join(names), " (queried after every step)" if every else ""), deep)
    rec.state(state_key(cam))
    rec.step(len(seq))
    rec.trace()


def nudges(cam):
    """every parameter of the camera, changed by a tiny amount (as an optimizer does)"""
    out = []
    for n in list(cam.parameters.parameters):
        if n.startswith(("image_", "sensor_", "gps_")):
            continue
        for how in ("set", "fit") if n in ("tilt_deg", "pitch_deg", "focallength_x_px", "k1", "a") else ("set",):
            for rel in (1e-4, 4e-6):
                out.append((n, how, rel))
    return out


def nudge(cam, n, how, rel):
    if n not in cam.parameters.parameters:
        return False
    v = getattr(cam, n)
    v = v * (1 + rel) if v else rel
    if how == "fit":
        cam.parameters.set_fit_parameters([n], [v])
    else:
        setattr(cam, n, v)
    return True


def run_nudge(cfg, act, nd, rec):
    """an edit, a query, a tiny change of one parameter; compared at a tolerance far below its effect"""
    np.random.seed(1)
    cam = build(cfg)
    if act is not None:
        act[1](cam)
    touch(cam)
    if not nudge(cam, *nd):
        return
    f = fresh(cam)
    for m in ("imageFromSpace", "getRay"):
        got, want = [np.asarray(c.imageFromSpace(SPC) if m == "imageFromSpace" else c.getRay(IMG, normed=True)[1]) for c in (cam, f)]
        rec.check(same(got, want, 1e-9, 1e-9), lambda: "%s; %s; %s changed by a factor of 1+%g (%s): %s is %s, a camera with the values shown gives %s" % (
            cfg, act and act[0], nd[0], nd[2], nd[1], m, got.tolist(), want.tolist()))
    rec.state(state_key(cam))
    rec.step(2)
    rec.trace()


def run_dist(cfg, rec):
    """a parameter given as distribution (of any mean, zero included), drawn and set back to its mean"""
    free = [n for n in build(cfg).parameters.parameters if not n.startswith(("image_", "sensor_", "gps_"))]
    for n in free:
        for mean in (0., -0.0, 0, None, 1e-3):
            for part, steps in itertools.product((0, 1), (("sample",), ("mean",), ("sample", "mean"), ("sample", "mean", "sample"), ("other", "mean"), ("sample", "other", "mean"))):
                if n.startswith("focal") and mean is not None:
                    continue
                np.random.seed(3)
                cam = build(cfg)
                m = getattr(cam, n) * 1.03 + 0.01 if mean is None else mean
                setattr(next(p for p in (cam.projection, cam.orientation, cam.lens) if n in p.parameters.parameters) if part else cam, n, (m, 0.02))
                touch(cam)
                for s in steps:
                    if s == "sample":
                        cam.sample()
                    elif s == "mean":
                        cam.set_to_mean()
                        rec.check(getattr(cam, n) == m, lambda: "%s: %s given as (%s, 0.02) shows %s after %s" % (cfg, n, m, getattr(cam, n), steps))
                    else:
                        cam.parameters.set_fit_parameters({n: m + 0.05})
                    touch(cam)
                f = fresh(cam)
                for w in ("imageFromSpace", "getRay"):
                    got, want = [np.asarray(c.imageFromSpace(SPC) if w == "imageFromSpace" else c.getRay(IMG, normed=True)[1]) for c in (cam, f)]
                    rec.check(same(got, want, 1e-9, 1e-9), lambda: "%s: %s given as distribution (%s, 0.02), %s: %s is %s, a camera with the values shown gives %s" % (cfg, n, m, steps, w, got.tolist(), want.tolist()))
                rec.state(state_key(cam))
                rec.step(len(steps))
                rec.trace()


GROUPS = [(2, 2, "brown", 2), (1, 2, "brown", 1), (2, 1, "abc", 2), (1, 3, "none", 1), (3, 1, "abc", 1), (1, 1, "brown", 2)]


def make_group(cfg):
    np_, no, lens, nl = cfg
    P = [ct.RectilinearProjection(focallength_x_px=50. + 3 * i, focallength_y_px=45., image=(64, 48)) for i in range(np_)]
    O = [ct.SpatialOrientation(tilt_deg=60. - 5 * i, elevation_m=20. + i) for i in range(no)]
    mk = dict(none=lambda i: ct.NoDistortion(), brown=lambda i: ct.BrownLensDistortion(-0.1 + 0.02 * i), abc=lambda i: ct.ABCDistortion(0.01, 0, -0.05 + 0.01 * i))[lens]
    L = [mk(i) for i in range(nl)]
    one = lambda x: x if len(x) > 1 else x[0]
    return ct.CameraGroup(one(P), one(O), one(L))


def run_group(cfg, rec):
    """several parameters of a group changed by one call"""
    g = make_group(cfg)
    names = [n for n in g.parameters.parameters if not n.split("_", 1)[-1].startswith(("sensor", "image")) and not n.startswith(("sensor", "image"))]
    for a, b in itertools.permutations(names, 2):
        for route in ("fit", "fit list", "trace", "mean", "sample"):
            g = make_group(cfg)
            [touch(c) for c in g]
            new = {n: getattr(g, n) * 1.03 + 0.01 for n in (a, b)}
            if route == "fit":
                g.parameters.set_fit_parameters(new)
            elif route == "fit list":
                g.parameters.set_fit_parameters(list(new), list(new.values()))
            elif route == "trace":
                g.set_trace(pd.DataFrame([[v * 0.9 for v in new.values()] + [-5.], list(new.values()) + [-1.]], columns=list(new) + ["probability"]))
                g.set_to_mean()
            else:
                for n, v in new.items():
                    setattr(g, n, (v, 1e-9))
                    g.parameters.parameters[n].value = v * 0.9
                for call in {g.parameters.parameters[n].callback for n in new} - {None}:
                    call()
                [touch(c) for c in g]
                g.set_to_mean() if route == "mean" else g.sample()
            if "focallength_px" not in a + b:
                for n, v in new.items():
                    rec.check(abs(getattr(g, n) - v) < 1e-6, lambda: "%s: %s shows %s, expected %s" % (route, n, getattr(g, n), v))
            for i, cam in enumerate(g):
                f = fresh(cam)
                for q in (lambda c: c.imageFromSpace(SPC), lambda c: c.getRay(IMG, normed=True)[1], lambda c: c.orientation.cameraFromSpace(SPC)):
                    rec.check(same(q(cam), q(f), 1e-7, 1e-7), lambda: "group %s: %s and %s changed by one call (%s): camera %d gives %s, a camera with the values shown %s" % (
                        cfg, a, b, route, i, np.asarray(q(cam)).tolist(), np.asarray(q(f)).tolist()))
            rec.step()
        rec.state((cfg, a, b))
        rec.trace()


def share_actions():
    """edits on either camera, restricted to what both kinds of cameras have"""
    out = []
    for i in (0, 1):
        for n, f in [("focallength_px=70", sett("", "focallength_px", 70.)), ("projection.focallength_x_px=60", sett("projection", "focallength_x_px", 60.)),
                     ("center_x_px=28", sett("", "center_x_px", 28.)), ("fit center_y_px=20", lambda c: c.parameters.set_fit_parameters(["center_y_px"], [20.])),
                     ("image_width_px=50", sett("", "image_width_px", 50)), ("image_height_px=30", sett("projection", "image_height_px", 30)),
                     ("tilt_deg=40", sett("", "tilt_deg", 40.)), ("orientation.roll_deg=5", sett("orientation", "roll_deg", 5.)),
                     ("fit elevation_m", lambda c: c.parameters.set_fit_parameters({"elevation_m": 15.})), ("defaults.pos_x_m=3", lambda c: setattr(c.defaults, "pos_x_m", 3.)),
                     ("heading_deg=(20,1)", sett("", "heading_deg", (20., 1.))), ("set_to_mean", lambda c: c.set_to_mean()),
                     ("k1/a=0.05", lambda c: [setattr(c, n, 0.05) for n in ("k1", "a") if n in c.parameters.parameters]),
                     ("lens fit", lambda c: c.parameters.set_fit_parameters(["k1", "a"], [0.03, 0.03])),
                     ("center_y_px=None", sett("", "center_y_px", None))]:
            out.append(("cam%d.%s" % (i, n), i, f))
    return out


def run_share(cfg, seq, rec, every):
    np.random.seed(1)
    mk = lambda l: ct.NoDistortion() if l == "none" else ct.BrownLensDistortion(-0.1) if l == "brown" else ct.ABCDistortion(0.01, 0, -0.05)
    p = ct.RectilinearProjection(focallength_x_px=50., focallength_y_px=45., image=(64, 48))
    o = ct.SpatialOrientation(tilt_deg=60., elevation_m=20.)
    p2 = p if "projection" in cfg["share"] else ct.RectilinearProjection(focallength_x_px=52., focallength_y_px=41., image=(64, 48))
    o2 = o if "orientation" in cfg["share"] else ct.SpatialOrientation(tilt_deg=50., elevation_m=10.)
    cams = [ct.Camera(p, o, mk(cfg["lens"][0])), ct.Camera(p2, o2, mk(cfg["lens"][1]))]
    acts = share_actions()
    if every:
        [observe(c, False) for c in cams]
    for k in seq:
        acts[k][2](cams[acts[k][1]])
        if every:
            [observe(c, False) for c in cams]
    h = "%s: %s" % (cfg, "; ".join(acts[k][0] for k in seq))
    for c in cams:
        compare(rec, c, h)
        rec.state(state_key(c))
    for part in cfg["share"]:
        for n in getattr(cams[0], part).parameters.parameters:
            rec.check(getattr(cams[0], n) == getattr(cams[1], n), "%s: the cameras share the %s but show different %s" % (h, part, n))
    rec.step(len(seq))
    rec.trace()


# parts that belong to no camera
ALONE = [ct.RectilinearProjection, ct.CylindricalProjection, ct.EquirectangularProjection, ct.SpatialOrientation, ct.SpatialOrientationYawPitchRoll, ct.BrownLensDistortion, ct.ABCDistortion]
NORM = np.array([[0., 0.], [0.3, -0.2], [-0.7, 0.1], [0.05, 0.6]])


def alone(cls, values=None):
    if issubclass(cls, ct.CameraProjection):
        return cls(**(values or dict(focallength_x_px=50., focallength_y_px=45., image_width_px=64, image_height_px=48)))
    return cls(**(values or {}))


def alone_edits(cls, scratch):
    out = {}
    base = alone(cls)
    lens = issubclass(cls, (ct.BrownLensDistortion, ct.ABCDistortion))
    own = [n for n in base.parameters.parameters if not n.startswith("sensor_")]
    num = lambda k: 0.02 * (k + 1) if lens else 33. + 4 * k

    def loads(p):
        fn = os.path.join(scratch, "a%d.json" % os.getpid())
        o = alone(cls)
        for k, n in enumerate(own):
            setattr(o, n, num(k) * 0.7)
        o.save(fn)
        p.load(fn)
    for k, n in enumerate(own):
        out[n + "=v"] = lambda p, n=n, k=k: setattr(p, n, num(k))
        out["parameters." + n + "=w"] = lambda p, n=n, k=k: setattr(p.parameters, n, num(k + 2))
        out["fit " + n] = lambda p, n=n, k=k: p.parameters.set_fit_parameters([n], [num(k + 1)])
        out[n + "=(m,s)"] = lambda p, n=n, k=k: setattr(p, n, (num(k + 3), num(k) / 50))
        if n != "focallength_px" and base.parameters.parameters[n].default is not None:
            out[n + "=None"] = lambda p, n=n: setattr(p, n, None)
            out["defaults." + n] = lambda p, n=n, k=k: setattr(p.defaults, n, num(k) * 0.9)
    out["set_to_mean"] = lambda p: p.set_to_mean()
    out["sample"] = lambda p: p.sample()
    out["load"] = loads
    return out


def see_alone(p):
    if isinstance(p, ct.CameraProjection):
        return [p.imageFromCamera(SPC * [1, 1, -1] - [0, 0, 9]), p.getRay(IMG), np.array(p.getFieldOfView()), np.array(p.focallengthFromFOV(view_y=30)), np.array(p.imageFromFOV(view_x=30))]
    if isinstance(p, ct.SpatialOrientation):
        return [p.cameraFromSpace(SPC), p.spaceFromCamera(SPC), p.spaceFromCamera(SPC, direction=True)]
    return [p.distortedFromImage(NORM), p.imageFromDistorted(NORM)]


def run_alone(c, rec):
    cls = ALONE[c["part"]]
    acts = list(alone_edits(cls, os.environ["VERIF_SCRATCH"]).items())
    for d in range(1, c["depth"] + 1):
        for seq in itertools.product(acts, repeat=d):
            for every in (False, True):
                np.random.seed(2)
                p = alone(cls)
                for n, f in seq:
                    if every:
                        see_alone(p)
                    f(p)
                shown = {n: getattr(p, n) for n in p.parameters.parameters if n != "focallength_px"}
                for n in shown:
                    rec.check(getattr(p.parameters, n) == shown[n], lambda: "%s alone; %s: %s reads differently from its parameters" % (cls.__name__, [s[0] for s in seq], n))
                for got, want in zip(see_alone(p), see_alone(alone(cls, shown))):
                    rec.check(same(got, want, 1e-9, 1e-9), lambda: "%s alone; %s%s: gives %s, one with the values shown gives %s" % (cls.__name__, [s[0] for s in seq], " (queried before)" if every else "", np.asarray(got).tolist(), np.asarray(want).tolist()))
                rec.step(d)
                rec.trace()
                rec.state((cls.__name__, tuple(repr(v) for v in shown.values())))


def run_case(c, rec):
    scratch = os.environ["VERIF_SCRATCH"]
    if c["kind"] == "group":
        return run_group(GROUPS[c["cfg"]], rec)
    if c["kind"] == "alone":
        return run_alone(c, rec)
    if c["kind"] == "dist":
        return run_dist(CONFIGS[c["cfg"]], rec)
    if c["kind"] == "nudge":
        cfg = CONFIGS[c["cfg"]]
        acts = list(actions(cfg, scratch).items())
        for act in [None] + (acts if c["tier"] == "thorough" else acts[::4]):
            for nd in nudges(build(cfg)):
                run_nudge(cfg, act, nd, rec)
        return
    if c["kind"] == "hist":
        cfg = CONFIGS[c["cfg"]]
        acts = list(actions(cfg, scratch).items())
        if c["depth"] == 2:
            run_hist(cfg, acts, [c["first"]], rec, False, True)
            for k in range(len(acts)):
                run_hist(cfg, acts, [c["first"], k], rec, True, c["cfg"] in (2, 11))
                run_hist(cfg, acts, [c["first"], k], rec, False, False)
        else:
            for k in core(c["cfg"]) if c["tier"] == "quick" else range(len(acts)):
                run_hist(cfg, acts, [c["first"], c["second"], k], rec, True, False)
    else:
        cfg = SHARE[c["cfg"]]
        for rest in itertools.product(range(30), repeat=c["depth"] - 1):
            for every in ((True, False) if c["cfg"] in (0, 5, 10) else (True,)):
                run_share(cfg, (c["first"],) + rest, rec, every)
