"""C03: lens distortion = documented radial polynomial; undistortion inverts it."""
import math, itertools
import numpy as np
import cameratransform as ct
from mc.util import need_same, projection, lens
from mc.ref import RefCam

INTR = [dict(fx=1000., fy=1000., cx=320., cy=240., w=640, h=480), dict(fx=900., fy=1100., cx=310., cy=250., w=640, h=480),
        dict(fx=500., fy=450., cx=150.5, cy=420.25, w=300, h=800), dict(fx=3863.64, fy=3863.64, cx=-12.5, cy=4000., w=4608, h=3456), dict(fx=300., fy=310., cx=166.5, cy=110.5, w=333, h=221)]
G = {"quick": {"brown": ([-0.4, -0.3, -0.1, 0, 0.05, 0.3, 1.0], [-0.05, 0, 0.1], [-0.02, 0, 0.05]),
               "abc": ([-0.1, 0, 0.05], [-0.1, 0, 0.1], [-0.2, 0, 0.1])},
     "thorough": {"brown": ([-0.5, -0.4, -0.3, -0.2, -0.1, -0.05, -0.01, 0, 0.01, 0.05, 0.1, 0.3, 0.6, 1.0], [-0.1, -0.05, -0.01, 0, 0.01, 0.05, 0.1, 0.3], [-0.05, -0.02, 0, 0.01, 0.05, 0.2]),
                  "abc": ([-0.2, -0.1, -0.05, -0.01, 0, 0.01, 0.05, 0.1], [-0.2, -0.1, -0.05, 0, 0.02, 0.05, 0.1], [-0.3, -0.2, -0.05, 0, 0.05, 0.1, 0.2])}}
FR = {"quick": [1e-9, 1e-3, 0.03, 0.1, 0.25, 0.5, 0.75, 0.9], "thorough": [1e-12, 1e-9, 1e-6, 1e-3] + [0.01 * i for i in range(1, 91)]}
ANG = {"quick": [0, 30, 45, 90, 100, 135, 180, 225, 250, 270, 315, 359], "thorough": list(range(0, 360, 9)) + [45, 135, 225, 315]}
FWD_R = [0.0, 1e-6, 0.2, 0.7, 1.0, 1.5, 1.99, 2.5, 4.0]
TOL = 1e-4  # in normalised units (0.1 px at a focal length of 1000 px)
ASSUMPTIONS = ["the inverse is claimed up to radius 1.8 and 90 % of the increasing range, to 1e-4 normalised units",
               "the coefficient ranges stated in the bounds"]
BOUNDS = {t: "5 intrinsics x Brown %s and ABC %s coefficient grids x %d directions x %d radii" % (
    "x".join(str(len(v)) for v in G[t]["brown"]), "x".join(str(len(v)) for v in G[t]["abc"]), len(ANG[t]), len(FR[t])) for t in G}


def cases(tier):
    yield dict(lens="none", coef=[0, 0, 0], tier=tier)
    for kind in ("brown", "abc"):
        for coef in itertools.product(*G[tier][kind]):
            yield dict(lens=kind, coef=list(coef), tier=tier)


def run_case(c, rec):
    dirs = np.array([[math.cos(math.radians(a)), math.sin(math.radians(a))] for a in ANG[c["tier"]]])
    dirs[np.abs(dirs) < 1e-12] = 0
    for ii, intr in enumerate(INTR):
        ref = RefCam("rect", lens=c["lens"], coef=c["coef"], **intr)
        L = lens(c["lens"], c["coef"])
        proj = projection("rect", **intr)
        cam = ct.Camera(proj, ct.SpatialOrientation(elevation_m=0, tilt_deg=0), L)
        s, o = ref.lens_scale(), np.array([intr["cx"], intr["cy"]])
        if c["lens"] == "none":
            s = np.array([intr["fx"], intr["fy"]])
        what = "%s%s %s" % (c["lens"], c["coef"], intr)
        scale = float(np.max(s))
        # the principal point stays
        for f in (L.distortedFromImage, L.imageFromDistorted):
            need_same(rec, f(o.copy()), o, "principal point of " + what, atol=1e-6)
            need_same(rec, f(np.array([o, o + s * 0.1]))[0], o, "principal point of " + what, atol=1e-6)
            rec.step(2)
        # forward map
        pts = np.array([o + s * d * r for r in FWD_R for d in dirs])
        want = np.array([ref.distort(p) for p in pts])
        got = L.distortedFromImage(pts)
        need_same(rec, got, want, "distortedFromImage of " + what, rtol=1e-8, atol=1e-8 * scale)
        rec.step(len(pts))
        # through the camera
        ray = proj.getRay(pts)
        need_same(rec, cam.imageFromSpace(ray * 3), want, "imageFromSpace with " + what, rtol=1e-7, atol=1e-6 * scale)
        rec.step(len(pts))
        # inverse
        lim = min(1.8, 0.9 * ref.monotone_radius())
        if c["lens"] == "none":
            lim = 1.8
        rr = sorted({lim * f / 0.9 if f <= 0.9 else lim for f in FR[c["tier"]]})
        pts = np.array([o + s * d * r for r in rr for d in dirs])
        dist = np.array([ref.distort(p) for p in pts])
        back = L.imageFromDistorted(dist)
        rec.step(len(pts))
        err = np.max(np.abs(np.asarray(back) - pts) / s, axis=-1) if np.shape(back) == pts.shape else None
        rec.check(err is not None and np.all(err < TOL), lambda: "imageFromDistorted of %s is off by %s normalised units at %s" % (
            what, np.nanmax(np.where(np.isnan(err), np.inf, err)), pts[int(np.argmax(np.where(np.isnan(err), np.inf, err)))].tolist()))
        back = L.imageFromDistorted(L.distortedFromImage(pts))
        err = np.max(np.abs(np.asarray(back) - pts) / s, axis=-1)
        rec.check(np.all(err < TOL), "round trip of %s" % what)
        off, d = cam.getRay(dist, normed=True)
        want = proj.getRay(pts, normed=True)
        rec.check(np.all(np.abs(np.asarray(d) - want) < 10 * TOL * scale / min(intr["fx"], intr["fy"])), "Camera.getRay with " + what)
        rec.step(3 * len(pts))
        rec.states += len(pts) + len(FWD_R) * len(dirs)
        rec.trace(3 * len(pts))
        rec.outcome(np.round(got, 3).tolist())
