"""C04: spaceFromImage obeys the constraint, lies on the ray in front of the camera, projects back; nan iff behind."""
import math
import numpy as np
import cameratransform as ct
from mc.util import camera, refcam, prod

INTR = [dict(fx=500., fy=500., cx=320., cy=240., w=640, h=480), dict(fx=520., fy=610., cx=300., cy=250., w=640, h=480)]
LENS = [("none", (0, 0, 0)), ("brown", (-0.1, 0.02, 0)), ("brown", (0.2, 0, 0)), ("abc", (0.01, 0, -0.05)), ("abc", (0, 0.05, 0.02))]
ORI_Q = [(0, 0, 0), (45, 0, 0), (85, 0, 30), (90, 0, 0), (70, 25, 200), (120, -90, -45), (180, 10, 0), (-60, 180, 90)] + [(t, r, h) for t in (60, 91, 135, -30) for r in (0, 45) for h in (0, 100, 270)]
ORI_T = sorted(set(ORI_Q + [(t, r, h) for t in (0, 10, 60, 89, 90, 91, 135, 180, -30) for r in (0, 45, -170) for h in (0, 100, 270, -20)]))
POS_Q = [(0., 0., 30.), (5., -8., -2.), (-1e3, 2e3, 100.)]
POS_T = POS_Q + [(0., 0., 0.)]
PLANES = [-50., 0., 2.5, 200.]
NEAR = [1e-3, -1e-3, 0.02, -0.02, 3e-7, -3e-7]       # planes next to the camera
DIST = [0, 1e-4, 0.1, 1., 5000.]
PIX_Q = [(0, 0), (640, 0), (640, 480), (0, 480), (320, 240), (300, 250), (10, 250), (320, 470), (123.25, 77.5), (500.5, 300.125), (639, 241), (330, 20)]
PIX_T = sorted(set(PIX_Q + [(x, y) for x in range(0, 641, 80) for y in range(0, 481, 80)]))
ASSUMPTIONS = ["rays parallel to the requested plane (|direction component| < 1e-9, 1e-4 with a lens) and planes through the camera are excluded",
               "tolerances: 1e-7 relative (1e-3 px back-projection with a lens, whose inverse is a spline)"]


def dims(tier):
    return (ORI_Q, POS_Q, PIX_Q) if tier == "quick" else (ORI_T, POS_T, PIX_T)


BOUNDS = {t: "3 projections x 2 intrinsics x 5 lenses x %d orientations x %d positions x %d pixels x (X,Y,Z in %s and 0.3 um, 1 mm, 2 cm before and behind the camera, D in %s; scalar, per point list/array, grid; precedence of all subsets of X,Y,Z,D)" % (
    len(dims(t)[0]), len(dims(t)[1]), len(dims(t)[2]), PLANES, DIST) for t in ("quick", "thorough")}


def cases(tier):
    ori, pos, pix = dims(tier)
    for p in ("rect", "cyl", "equi"):
        for i in range(len(INTR)):
            for l in range(len(LENS)):
                for o in ori:
                    yield dict(proj=p, intr=i, lens=l, ori=list(o), tier=tier)


def judge(rec, cam, ref, pix, rays, idx, vals, got, what, eps):
    """idx: constrained axis or None for distance; vals: one value per pixel"""
    got = np.asarray(got, float)
    if got.shape != (len(pix), 3):
        rec.fail("%s: shape %s for %d points" % (what, got.shape, len(pix)))
    t = ref.t
    good = []
    for k in range(len(pix)):
        d, v = rays[k], vals[k]
        if idx is None:
            f = v
        else:
            if abs(d[idx]) < eps["par"] or abs(v - t[idx]) < 1e-9:
                continue
            f = (v - t[idx]) / d[idx]
        g = got[k]
        if f < 0:
            rec.check(np.all(np.isnan(g)), lambda: "%s: pixel %s meets the plane only behind the camera but gives %s" % (what, pix[k], g))
            continue
        rec.check(np.all(np.isfinite(g)), lambda: "%s: pixel %s meets the plane in front of the camera but gives %s" % (what, pix[k], g))
        if idx is not None:
            rec.check(abs(g[idx] - v) <= 1e-7 * (1 + abs(v) + abs(t[idx])), lambda: "%s: pixel %s gives %s, which is not on the plane" % (what, pix[k], g))
        else:
            rec.check(abs(np.linalg.norm(g - t) - v) <= 1e-7 * (v + np.abs(t).max() + 1), lambda: "%s: pixel %s gives %s, which is not at the distance" % (what, pix[k], g))
        if f == 0 and idx is None:
            continue        # (the camera itself has no image)
        w = g - t
        n = np.linalg.norm(w)
        rec.check(np.linalg.norm(w / n - d) < eps["ray"] + 1e-9 * (1 + np.abs(t).max()) / n, lambda: "%s: pixel %s gives %s, which is not on the viewing ray %s" % (what, pix[k], g, d))
        good.append(k)
    if good:
        back = np.asarray(cam.imageFromSpace(got[good]), float)
        n = np.linalg.norm(got[good] - t, axis=-1)
        tol = eps["px"] + 1e-8 * 1000 * (1 + np.abs(t).max()) / n
        bad = ~(np.max(np.abs(back - pix[good]), axis=-1) < tol)
        rec.check(not bad.any(), lambda: "%s: pixel %s gives %s, which is imaged at %s" % (
            what, pix[good][bad][0], got[good][bad][0], back[bad][0]))
    rec.step(2 * len(pix))
    rec.trace(len(pix))
    rec.outcome(len(good))


def run_case(c, rec):
    kind, coef = LENS[c["lens"]]
    intr = INTR[c["intr"]]
    _, poss, pixs = dims(c["tier"])
    pix = np.array(pixs, float)
    eps = dict(par=1e-9, ray=1e-8, px=1e-5) if kind == "none" else dict(par=1e-4, ray=1e-5, px=2e-3)
    for pos in poss:
        spec = dict(intr, proj=c["proj"], lens=kind, coef=coef, tilt=c["ori"][0], roll=c["ori"][1], heading=c["ori"][2], pos=pos)
        cam, ref = camera(spec), refcam(spec)
        rays = np.array([ref.space_ray(p) for p in pix])
        n = len(pix)
        name = "%s" % spec
        for idx, axis in enumerate("XYZ"):
            for v in PLANES:
                kw = {axis: v}
                judge(rec, cam, ref, pix, rays, idx, [v] * n, cam.spaceFromImage(pix.copy(), **kw), name + " %s" % kw, eps)
            for v in NEAR:
                v += pos[idx]
                judge(rec, cam, ref, pix, rays, idx, [v] * n, cam.spaceFromImage(pix, **{axis: v}), name + " near %s=%s" % (axis, v), eps)
            vals = [PLANES[k % 4] + 0.5 * (k % 3) for k in range(n)]
            judge(rec, cam, ref, pix, rays, idx, vals, cam.spaceFromImage(pix, **{axis: np.array(vals)}), name + " %s per point" % axis, eps)
            judge(rec, cam, ref, pix, rays, idx, vals, cam.spaceFromImage(pix.tolist(), **{axis: list(vals)}), name + " %s per point list" % axis, eps)
            grid = cam.spaceFromImage(pix.reshape(2, -1, 2) if n % 2 == 0 else pix[:-1].reshape(2, -1, 2), **{axis: 3})
            m = n - n % 2
            judge(rec, cam, ref, pix[:m], rays[:m], idx, [3.] * m, np.reshape(grid, (-1, 3)) if np.shape(grid) == (2, m // 2, 3) else grid, name + " %s grid" % axis, eps)
            k = (c["lens"] + idx) % n
            judge(rec, cam, ref, pix[k:k + 1], rays[k:k + 1], idx, [2.], np.reshape(cam.spaceFromImage(list(pix[k]), **{axis: 2}), (1, 3)), name + " %s single" % axis, eps)
        judge(rec, cam, ref, pix, rays, 2, [0.] * n, cam.spaceFromImage(pix), name + " default", eps)
        for v in DIST:
            judge(rec, cam, ref, pix, rays, None, [v] * n, cam.spaceFromImage(pix, D=v), name + " D=%s" % v, eps)
        vals = [DIST[k % len(DIST)] for k in range(n)]
        judge(rec, cam, ref, pix, rays, None, vals, cam.spaceFromImage(pix, D=np.array(vals)), name + " D per point", eps)
        judge(rec, cam, ref, pix, rays, None, vals, cam.spaceFromImage(pix, D=list(vals)), name + " D per point list", eps)
        # precedence: D over X over Y over Z, including the value 0
        for sub in range(16):
            for a, b, d in ((0, -7., 12.), (3., 0, 2.)):
                kw = {}
                if sub & 1: kw["X"] = a
                if sub & 2: kw["Y"] = b
                if sub & 4: kw["Z"] = 1.5
                if sub & 8: kw["D"] = d
                idx, v = (None, d) if sub & 8 else (0, a) if sub & 1 else (1, b) if sub & 2 else (2, 1.5 if sub & 4 else 0.)
                judge(rec, cam, ref, pix, rays, idx, [float(v)] * n, cam.spaceFromImage(pix, **kw), name + " %s" % kw, eps)
        rec.states += n * (3 * (len(PLANES) + len(NEAR) + 4) + len(DIST) + 3 + 32)
