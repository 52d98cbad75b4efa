"""C01: projections follow the documented formulas; rays invert them."""
import math
import numpy as np
import cameratransform as ct
from mc.util import need_same, projection, prod, same
from mc.ref import RefCam

INTR = [dict(fx=1000., fy=1000., cx=320., cy=240., w=640, h=480), dict(fx=1000., fy=1100., cx=310., cy=250., w=640, h=480),
        dict(fx=50.5, fy=20.25, cx=0., cy=0., w=101, h=33), dict(fx=3863.64, fy=3000., cx=-12.5, cy=4000.75, w=4608, h=3456),
        dict(fx=7, fy=3, cx=5, cy=2, w=10, h=6)]
AX_Q = [-2e7, -1e5, -1000., -30., -3., -1., -0.25, -1e-3, -1e-6, 0., 1e-6, 0.1, 0.5, 1., 2., 40., 2500., 3e6]
AX_T = sorted(set(AX_Q + [s * v for s in (-1, 1) for v in (1e-5, 0.01, 0.05, 0.3, 0.9, 1.5, 7., 15., 99.5, 300., 12345., 1e6)]))
IM_Q = [-3., -2.5, -1.5, -1., -0.75, -0.5, -0.25, -0.1, -1e-3, 0., 1e-6, 1e-3, 0.05, 0.25, 0.4, 0.75, 1., 1.25, 1.5, 2., 3.1]
IM_T = sorted(set(IM_Q + [round(-3.1 + 0.1 * i, 3) for i in range(63)]))
TINY = [1e-2, 1e-4, 1e-6, 1e-8, 1e-9, 5e-10, 1e-10, 1e-12, 1e-15, 1e-20, 1e-30, 1e-60, 1e-100, 1e-150, 1e-200]  # depths next to the image plane
ASSUMPTIONS = ["tolerance 1e-8 relative (1e-7 px absolute times focal length scale)",
               "points on the vertical axis of the panoramic projections (undefined azimuth) and |z| < 1e-9 of the rectilinear projection are only required not to be imaged at a finite wrong place"]
BOUNDS = {"quick": "3 projections x 5 intrinsics x %d^3 camera points, %d^2 image points x 3 depths, hide_backpoints on/off, normed on/off; 40 directions x 15 depths from 1 cm down to 1e-200 m next to the image plane" % (len(AX_Q), len(IM_Q)),
          "thorough": "3 projections x 5 intrinsics x %d^3 camera points, %d^2 image points x 5 depths" % (len(AX_T), len(IM_T))}


def cases(tier):
    for kind in ("rect", "cyl", "equi"):
        for i in range(len(INTR)):
            for z in (AX_Q if tier == "quick" else AX_T):
                yield dict(mode="project", proj=kind, intr=i, z=z, tier=tier)
            yield dict(mode="ray", proj=kind, intr=i, tier=tier)
            yield dict(mode="tiny", proj=kind, intr=i, tier=tier)


def run_case(c, rec):
    intr = INTR[c["intr"]]
    ref = RefCam(c["proj"], **intr)
    p = projection(c["proj"], **intr)
    ax = AX_Q if c["tier"] == "quick" else AX_T
    tol = dict(rtol=1e-8, atol=1e-8 * max(intr["fx"], intr["fy"]))
    if c["mode"] == "tiny":
        for z in TINY:
            q = np.array([[a * z, b * z, s * z] for s in (1, -1) for a in (-2, -0.5, 0, 0.3, 1) for b in (-1.5, 0, 0.7, 1)])
            for hide in (True, False):
                got = np.asarray(p.imageFromCamera(q.copy(), hide_backpoints=hide), float)
                rec.step(len(q))
                for point, g in zip(q, got):
                    if c["proj"] != "rect" and point[0] == 0:  # atan2(0, +-0) is only used off the axis
                        continue
                    what = "%s %s imageFromCamera(%s, hide_backpoints=%s) close to the camera" % (c["proj"], intr, point.tolist(), hide)
                    if hide and c["proj"] == "rect" and point[2] > 0:
                        rec.check(np.all(np.isnan(g)), what + ": a point behind the camera is imaged at %s" % g)
                    elif z > (2e-10 if c["proj"] == "rect" else 1e-100):  # rectilinear: smaller distances count as 0; panoramic: squares underflow
                        need_same(rec, g, ref.project(point, hide), what, **tol)
        rec.states += 2 * len(TINY) * len(q)
        rec.trace(2 * len(TINY))
        return
    if c["mode"] == "project":
        pts = np.array([[x, y, c["z"]] for x in ax for y in ax])
        for hide in (True, False):
            got = p.imageFromCamera(pts.copy(), hide_backpoints=hide)
            rec.step(len(pts))
            if np.shape(got) != (len(pts), 2):
                rec.fail("imageFromCamera returned shape %s for %d points" % (np.shape(got), len(pts)))
            for q, g in zip(pts, np.asarray(got, float)):
                if c["proj"] == "rect" and abs(q[2]) < 1e-9:
                    rec.check(not np.all(np.isfinite(g)), "point %s in the image plane is imaged at %s" % (q, g))
                    continue
                if c["proj"] != "rect" and q[0] == 0 and q[2] == 0:
                    if c["proj"] == "equi":  # only the latitude is defined at the poles
                        need_same(rec, g[1], ref.project(q)[1], "pole %s" % q, **tol)
                    continue
                need_same(rec, g, ref.project(q, hide), "%s %s imageFromCamera(%s, hide_backpoints=%s)" % (c["proj"], intr, q.tolist(), hide), rtol=1e-8,
                          atol=1e-8 * max(intr["fx"], intr["fy"]) * 10)
                if hide and c["proj"] == "rect" and q[2] > 0:
                    rec.check(np.all(np.isnan(g)), "point behind the camera imaged")
        single = p.imageFromCamera(list(pts[3]))
        need_same(rec, single, np.asarray(p.imageFromCamera(pts))[3], "single point", **tol)
        rec.states += 2 * len(pts)
        rec.trace(2 * len(pts))
        rec.outcome(np.round(np.nan_to_num(np.asarray(got)), 3).tolist())
        return
    # rays
    im = IM_Q if c["tier"] == "quick" else IM_T
    lim = {"rect": (99, 99), "cyl": (math.pi - 1e-6, 99), "equi": (math.pi - 1e-6, math.pi / 2 - 1e-3)}[c["proj"]]
    ab = [(a, b) for a in im for b in im if abs(a) < lim[0] and abs(b) < lim[1]]
    pix = np.array([[intr["cx"] + a * intr["fx"], intr["cy"] + b * intr["fy"]] for a, b in ab])
    want = np.array([ref.ray(q) for q in pix])
    normed = np.asarray(p.getRay(pix.copy(), normed=True))
    raw = np.asarray(p.getRay(pix.copy()))
    need_same(rec, np.linalg.norm(normed, axis=-1), np.ones(len(pix)), "norm of the rays")
    need_same(rec, normed, want, "%s %s getRay(normed)" % (c["proj"], intr), rtol=1e-8, atol=1e-9)
    need_same(rec, raw / np.linalg.norm(raw, axis=-1)[:, None], want, "%s %s getRay" % (c["proj"], intr), rtol=1e-8, atol=1e-9)
    cam = ct.Camera(p, ct.SpatialOrientation(elevation_m=0, tilt_deg=0))
    off, d = cam.getRay(pix, normed=True)
    need_same(rec, d, want, "Camera.getRay(normed)", rtol=1e-8, atol=1e-9)
    need_same(rec, off, np.zeros(3), "ray origin")
    rec.step(3 * len(pix))
    for depth in ((0.5, 1., 70.) if c["tier"] == "quick" else (1e-3, 0.5, 1., 70., 1e5)):
        for r in (raw, normed):
            back = p.imageFromCamera(r * depth)
            rec.step(len(pix))
            need_same(rec, back, pix, "%s %s: points on the ray at depth %s are not imaged at the pixel" % (c["proj"], intr, depth),
                      rtol=1e-7, atol=1e-7 * max(intr["fx"], intr["fy"]))
    single = p.getRay(list(pix[1]), normed=True)
    need_same(rec, single, want[1], "single ray", rtol=1e-8, atol=1e-9)
    rec.states += len(pix)
    rec.trace(len(pix))
    rec.outcome(np.round(normed, 5).tolist())
