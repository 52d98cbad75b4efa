"""C24: the relative pose of two cameras is recovered from the images of common points."""
import itertools
import numpy as np
import cv2
import cameratransform as ct
from mc.ref import RefCam, rot

# pose of the second camera relative to the first: rotation (tilt, roll, heading as a rotation matrix) and displacement in camera coordinates
TILT = [0., 8., -12.]
ROLL = [0., 5., -30., 90., 180.]
HEAD = [0., 6., -9.]
MOVE = [(1., 0., 0.), (-1., 0., 0.), (0., 1., 0.), (0.3, -0.4, 1.), (0.5, 0.2, -1.), (0.9, 0.4, 0.1), (0.006, -1., 0.), (1., 0.005, -0.007)]
BASE = [2.5, 1.2]
FIRST = [dict(), dict(pos_x_m=1.5, pos_y_m=-2., elevation_m=12.), dict(heading_deg=44., tilt_deg=80., roll_deg=3., pos_x_m=-4.), dict(elevation_m=-0.4, tilt_deg=30., roll_deg=-20.)]
INTR = [(1000., 1000., 1000, 800, 500., 400.), (800., 800., 640, 900, 300.25, 480.), (900., 1200., 1000, 900, 480., 470.)]
ASSUMPTIONS = ["exact correspondences of at least 40 points in general position, seen by two distortion-free rectilinear cameras with the same intrinsics, tilt/roll/heading orientations",
               "the pose is found by OpenCV's five point method, whose random sampling is seeded by OpenCV and accepts errors below one pixel; compared to 2 px, 0.1 % of the baseline and 3e-4 of the rotation matrix, or three times the error that the method itself makes on these points (at most 5 % and 3e-3)"]
BOUNDS = {"quick": "%d relative rotations x %d directions of displacement x 2 baselines x 4 poses (one below the ground) of the first camera (some in turn) x 3 intrinsics (one with different focal lengths), and pairs of calls on one group" % (len(TILT) * len(ROLL) * len(HEAD), len(MOVE)),
          "thorough": "as quick, with all combinations of the pose of the first camera and of preceding calls"}
CHUNK = 1


def cases(tier):
    for i, (t, r, h) in enumerate(itertools.product(TILT, ROLL, HEAD)):
        for m in range(len(MOVE)):
            yield dict(rot=[t, r, h], move=m, i=i, tier=tier)


def scene(n):
    """points in front of the first camera, in its coordinates, in general position"""
    out = []
    for k, (u, v, z) in enumerate(itertools.product(np.linspace(-0.35, 0.35, 5), np.linspace(-0.3, 0.3, 4), [12., 25., 60.])):
        z = z * (1 + 0.07 * ((k * 7) % 5) + 0.03 * n)
        u, v = u + 0.011 * ((k * 3) % 4), v - 0.013 * ((k * 5) % 3)
        out.append([u * z, v * z, -z])
    return np.array(out)


def run_case(c, rec):
    t, r, h = c["rot"]
    # a small rotation about the axes of the camera, composed with a roll
    Rr = rot(t, 0, 0) @ rot(0, 0, r).T
    a = np.radians(h)
    Ry = np.array([[np.cos(a), 0, np.sin(a)], [0, 1, 0], [-np.sin(a), 0, np.cos(a)]])
    R = Ry @ Rr
    k = 0
    last = None
    for (f, fy, w, hh, cx, cy), b, first in itertools.product(INTR, BASE, FIRST):
        k += 1
        if c["tier"] == "quick" and (k + c["i"] + c["move"]) % 3:
            continue
        d = np.array(MOVE[c["move"]]) / np.linalg.norm(MOVE[c["move"]]) * b
        P = scene(k % 3)
        Q = (P - d) @ R.T
        im = lambda X: np.stack([cx - X[:, 0] * f / X[:, 2], cy + X[:, 1] * fy / X[:, 2]], 1)
        ok = Q[:, 2] < -1
        P, Q = P[ok], Q[ok]
        if len(P) < 40:
            continue
        i1, i2 = im(P), im(Q)
        mk = lambda: ct.RectilinearProjection(focallength_x_px=f, focallength_y_px=fy, image=(w, hh), center=(cx, cy))
        group = lambda: ct.CameraGroup(mk() if k % 2 else [mk(), mk()], [ct.SpatialOrientation(**first), ct.SpatialOrientation(elevation_m=7., heading_deg=20.)])
        # the accuracy that the five point method reaches on these points
        K = np.array([[f, 0, cx], [0, fy, cy], [0, 0, 1.]])
        E, _ = cv2.findEssentialMat(i1, i2, K)
        _, Rc, tc, _ = cv2.recoverPose(E, i1, i2, K)
        ax = np.diag([1, -1, -1])
        tol_d = min(0.05, max(1e-3, 3 * np.abs((-(ax @ Rc @ ax).T @ ax @ tc)[:, 0] - d / b).max()))
        tol_r = min(3e-3, max(3e-4, 3 * np.abs(ax @ Rc @ ax - R).max()))
        gs = [group()]
        if last is not None:            # the group has been used before
            g = group()
            g.setCameraParametersByPointCorrespondence(*last)
            g[0].heading_deg = 33.
            gs.append(g)
        for n, g in enumerate(gs):
            pos = np.array(g[0].getPos())
            k1, k2 = i1.copy(), i2.copy()
            g.setCameraParametersByPointCorrespondence(k1, k2, b)
            what = "R = rot%s, displacement %s, first camera %s%s" % (c["rot"], d.tolist(), first, ", second call" if n else "")
            rec.check(np.array_equal(k1, i1) and np.array_equal(k2, i2), "%s: the correspondences were changed" % what)
            rec.check(np.allclose(g[0].getPos(), pos, atol=1e-9), lambda: "%s: the first camera was moved to %s" % (what, g[0].getPos()))
            # the images of a set of space points decide: space points as the first camera sees them
            c1 = RefCam("rect", f, fy, cx, cy, w, hh, tilt=g[0].tilt_deg, roll=g[0].roll_deg, heading=g[0].heading_deg, pos=g[0].getPos())
            c2 = RefCam("rect", f, fy, cx, cy, w, hh, tilt=g[1].tilt_deg, roll=g[1].roll_deg, heading=g[1].heading_deg, pos=g[1].getPos())
            Rg = c2.R @ c1.R.T
            dg = c1.R @ (c2.t - c1.t)
            rec.check(np.abs(Rg - R).max() < tol_r, lambda: "%s: the relative rotation is %s, expected %s" % (what, Rg.tolist(), R.tolist()))
            rec.check(np.abs(dg - d).max() < tol_d * b, lambda: "%s: the displacement is %s" % (what, dg.tolist()))
            X = P @ c1.R + c1.t
            g1, g2 = g.imagesFromSpace(X)
            rec.check(np.abs(g1 - i1).max() < 1e-6, lambda: "%s: images of the first camera" % what)
            rec.check(np.abs(g2 - i2).max() < 2, lambda: "%s: images of the second camera differ by %s px" % (what, np.abs(g2 - i2).max()))
            e = np.max(g.pointCorrespondenceError(i1, i2))
            rec.check(e < 2, lambda: "%s: pointCorrespondenceError is %s afterwards" % (what, e))
            rec.check(abs(g.getBaseline() - np.hypot(*(c2.t - c1.t)[:2])) < 1e-9, "baseline")
            rec.step(3)
            rec.trace()
        last = (i1, i2, b * 1.5)
        rec.states += len(gs)
        rec.outcome(np.round(Rg, 3).tolist())
