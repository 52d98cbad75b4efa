"""C12: lines, points and areas on an integer lattice against exact integer arithmetic."""
import itertools
import numpy as np
from cameratransform import ray
from mc.util import same

DIRS_Q = [v for v in itertools.product((-1, 0, 1, 2), repeat=3) if any(v)]
DIRS_T = [v for v in itertools.product((-2, -1, 0, 1, 2), repeat=3) if any(v)]
OFF_Q = [o for o in itertools.product((-2, 0, 3), repeat=3)]
OFF_T = [o for o in itertools.product((-2, -1, 0, 1, 3), repeat=3)]
LEN = [(1., 1.), (-1., 2.), (0.5, -4.), (-1e-5, 1e-5), (1., 1e5)]
NEAR = [10, 30, 100, 300, 1000, 3000, 10000, 30000, 10 ** 5, 3 * 10 ** 5, 10 ** 6, 10 ** 7]
P1 = np.array([1., -2., 5.])
ASSUMPTIONS = ["lines whose directions are exact multiples (+-1/4 .. +-4) count as parallel; others are at least 1e-7 rad apart (3e-4 for the intersection, whose equations lose digits with the square of the angle)",
               "direction vectors and points are ndarrays, as documented; areas of self-intersecting quadrilaterals are not claimed"]
BOUNDS = {"quick": "all %d^2 lattice direction pairs x %d offsets x %d direction length factors (incl. 1e-5..1e5, negative) x single/batch x swapped; degenerate directions; 243 pairs of lines at each of 12 angles from 1e-1 down to 1e-7; all quadrilaterals on a 4x4 lattice, all 2D (4x4) and 3D (3x3x3) triangles, quadrilaterals and 2D triangles also scaled by 2^-40 .. 2^20" % (len(DIRS_Q), len(OFF_Q), len(LEN)),
          "thorough": "all %d^2 lattice direction pairs x %d offsets; quadrilaterals on a 5x5 lattice" % (len(DIRS_T), len(OFF_T))}
CHUNK = 1


def cases(tier):
    for o in (OFF_Q if tier == "quick" else OFF_T):
        yield dict(kind="lines", off=list(o), tier=tier)
    n = 4 if tier == "quick" else 5
    for a in itertools.product(range(n), repeat=2):
        yield dict(kind="quad", a=list(a), n=n)
    yield dict(kind="tri2", n=n)
    for k in NEAR:
        yield dict(kind="near", n=k)
    for a in itertools.product(range(3), repeat=3):
        yield dict(kind="tri3", a=list(a))


def exact(off, V1, V2):
    """foot points and squared distance for p1 = 0, p2 = off; integer arrays V1 V2 (N,3) -> exact in int64"""
    a = (V1 * V1).sum(1)
    b = (V1 * V2).sum(1)
    c = (V2 * V2).sum(1)
    d = V1 @ off
    e = V2 @ off
    det = a * c - b * b
    return a, b, c, d, e, det


def run_lines(c, rec):
    dirs = np.array(DIRS_Q if c["tier"] == "quick" else DIRS_T)
    off = np.array(c["off"])
    V1 = np.repeat(dirs, len(dirs), 0)
    V2 = np.tile(dirs, (len(dirs), 1))
    a, b, cc, d, e, det = exact(off, V1, V2)
    par = det == 0
    # s V1 - t V2 = off : normal equations
    with np.errstate(all="ignore"):
        s = np.where(par, np.nan, (d * cc - e * b) / det)
        t = np.where(par, np.nan, (d * b - e * a) / det)
    F1 = P1 + s[:, None] * V1
    F2 = P1 + off + t[:, None] * V2
    mid = (F1 + F2) / 2
    cr = np.cross(V1, V2)
    dist = np.where(par, np.sqrt((np.cross(off, V1) ** 2).sum(1) / a), np.abs(cr @ off) / np.where(par, 1, np.sqrt((cr ** 2).sum(1))))
    p2 = P1 + off
    for l1, l2 in LEN:
        w1, w2 = V1 * l1, V2 * l2
        got = ray.intersectionOfTwoLines(P1, w1, p2, w2)
        rec.check(isinstance(got, np.ndarray) and got.shape == (len(V1), 3), lambda: "intersectionOfTwoLines: shape %s" % (np.shape(got),))
        # batches of parallel lines only are nan as a whole or per line; mixed batches are handled per line
        ok = np.all(np.abs(got - mid) <= 1e-7, axis=1) | (par & np.isnan(got).all(1))
        rec.check(ok.all(), lambda: bad("intersectionOfTwoLines", P1, w1, p2, w2, ok, got, mid))
        sw = ray.intersectionOfTwoLines(p2, w2, P1, w1)
        rec.check(same(sw, got, 1e-6, 1e-6), "intersectionOfTwoLines depends on the order of the lines for p2-p1 = %s, lengths %s %s" % (off, l1, l2))
        sel = ~par
        clean = ray.intersectionOfTwoLines(P1, w1[sel], p2, w2[sel])
        okc = np.all(np.abs(clean - mid[sel]) <= 1e-7, axis=1)
        rec.check(okc.all(), lambda: bad("intersectionOfTwoLines", P1, w1[sel], p2, w2[sel], okc, clean, mid[sel]))
        gd = ray.distanceOfTwoLines(P1, w1, p2, w2)
        okd = np.abs(gd - dist) <= 1e-7
        rec.check(np.shape(gd) == (len(V1),) and okd.all(), lambda: bad("distanceOfTwoLines", P1, w1, p2, w2, okd, gd, dist))
        sd = ray.distanceOfTwoLines(p2, w2, P1, w1)
        rec.check(same(sd, gd, 1e-6, 1e-7), "distanceOfTwoLines depends on the order of the lines for p2-p1 = %s, lengths %s %s" % (off, l1, l2))
        rec.step(5)
    # single lines, also with integer numbers
    for k in range(0, len(V1), 1 if c["tier"] == "quick" else 7):
        for w1, w2, q1, q2 in ((V1[k].astype(float), V2[k].astype(float), P1, p2), (V1[k], V2[k], P1.astype(int), p2.astype(int))):
            g = ray.intersectionOfTwoLines(q1, w1, q2, w2)
            rec.check(np.shape(g) == (3,), "intersectionOfTwoLines of single lines: shape %s" % (np.shape(g),))
            if par[k]:
                rec.check(np.isnan(g).all(), lambda: "intersectionOfTwoLines of the parallel lines %s %s: %s" % (w1, w2, g))
            else:
                rec.check(np.all(np.abs(g - mid[k]) <= 1e-7), lambda: "intersectionOfTwoLines(%s, %s, %s, %s) = %s, expected %s" % (q1, w1, q2, w2, g, mid[k]))
            dd = ray.distanceOfTwoLines(q1, w1, q2, w2)
            rec.check(abs(dd - dist[k]) <= 1e-7, lambda: "distanceOfTwoLines(%s, %s, %s, %s) = %s, expected %s" % (q1, w1, q2, w2, dd, dist[k]))
            rec.step(2)
    # degenerate directions
    z = np.zeros(3)
    for v in dirs:
        w = np.sqrt((np.cross(off, v) ** 2).sum() / (v @ v))
        for l in (1., -3., 1e-6):
            for g in (ray.distanceOfTwoLines(P1, z, p2, v * l), ray.distanceOfTwoLines(P1, v * l, p2, z), ray.distanceLinePoint(P1, v * l, p2)):
                rec.check(abs(g - w) <= 1e-8, lambda: "distance of the point to the line %s through a point %s away = %s, expected %s" % (v * l, off, g, w))
            foot = P1 + v * ((v @ off) / (v @ v))
            f = ray.getClosestPointFromLine(P1, v * l, p2)
            rec.check(same(f, foot, 1e-8, 1e-8), lambda: "getClosestPointFromLine(%s, %s, %s) = %s, expected %s" % (P1, v * l, p2, f, foot))
            rec.step(4)
    rec.check(abs(ray.distanceOfTwoLines(P1, z, p2, z) - np.linalg.norm(off)) < 1e-9, "distance of two degenerate lines")
    # closest points for batches
    feet = P1 + dirs * ((dirs @ off) / (dirs * dirs).sum(1))[:, None]
    for l in (1., -3., 1e-6, 1e6):
        rec.check(same(ray.getClosestPointFromLine(P1, dirs * l, np.tile(p2, (len(dirs), 1))), feet, 1e-8, 1e-8), "getClosestPointFromLine for batches")
        rec.check(same(ray.getClosestPointFromLine(P1, dirs * l, p2), feet, 1e-8, 1e-8), "getClosestPointFromLine for batches and one point")
        rec.check(same(ray.getClosestPointFromLine(np.tile(P1, (len(dirs), 1)), dirs * l, p2), feet, 1e-8, 1e-8), "getClosestPointFromLine for batches with origins")
    rec.states += len(V1) * len(LEN)
    rec.trace(len(V1) * len(LEN))
    rec.outcome(np.round(dist, 6).tolist()[:200])


def bad(name, p1, w1, p2, w2, ok, got, want):
    k = int(np.nonzero(~ok)[0][0])
    return "%s(%s, %s, %s, %s) = %s in a batch, expected %s" % (name, p1, w1[k], p2, w2[k], got[k], want[k])


def orient(p, q, r):
    return (q[..., 0] - p[..., 0]) * (r[..., 1] - p[..., 1]) - (q[..., 1] - p[..., 1]) * (r[..., 0] - p[..., 0])


def crosses(p, q, r, s):
    """segments p-q and r-s meet properly (interiors cross)"""
    return (np.sign(orient(p, q, r)) * np.sign(orient(p, q, s)) < 0) & (np.sign(orient(r, s, p)) * np.sign(orient(r, s, q)) < 0)


def run_near(c, rec):
    """lines that are nearly parallel, exactly with integers: directions v and n*v + w"""
    p1 = np.array([1., -2., 5.])
    for v in ((1, 0, 0), (1, 2, -1), (0, -3, 2)):
        for w in ((0, 1, 0), (1, 0, 2), (-1, 1, 1)):
            for off in itertools.product((-2, 0, 3), repeat=3):
                u = [c["n"] * i + j for i, j in zip(v, w)]
                cr = [v[1] * u[2] - v[2] * u[1], v[2] * u[0] - v[0] * u[2], v[0] * u[1] - v[1] * u[0]]
                num, den = sum(i * j for i, j in zip(cr, off)), sum(i * i for i in cr)
                want = abs(num) / den ** 0.5
                a, b, cc = sum(i * i for i in v), sum(i * j for i, j in zip(v, u)), sum(i * i for i in u)
                d, e = sum(i * j for i, j in zip(v, off)), sum(i * j for i, j in zip(u, off))
                det = a * cc - b * b
                s, t = (d * cc - e * b) / det, (d * b - e * a) / det     # integers, rounded once
                mid = (2 * p1 + np.array(off) + s * np.array(v, float) + t * np.array(u, float)) / 2
                sine = (den / a / cc) ** 0.5
                for l1, l2 in ((1., 1.), (-1e-3, 1e-2 / c["n"]), (1., 1. / c["n"])):
                    V, U, p2 = np.array(v) * l1, np.array(u, float) * l2, p1 + off
                    for g in (ray.distanceOfTwoLines(p1, V, p2, U), ray.distanceOfTwoLines(p2, U, p1, V), ray.distanceOfTwoLines(p1, V[None], p2, U[None])[0]):
                        rec.check(abs(g - want) < 1e-8 + 1e-14 / sine, lambda: "distanceOfTwoLines(%s, %s, %s, %s), lines at an angle of %.1e, = %s, expected %s" % (p1, V, p2, U, sine, g, want))
                    rec.step(3)
                    if c["n"] <= 3000:
                        tol = 1e-9 + 1e-13 / sine ** 2 * (1 + abs(s) * a ** 0.5)
                        for g in (ray.intersectionOfTwoLines(p1, V, p2, U), ray.intersectionOfTwoLines(p2, U, p1, V), ray.intersectionOfTwoLines(p1, V[None], p2, U[None])[0]):
                            rec.check(np.all(np.abs(g - mid) < tol), lambda: "intersectionOfTwoLines(%s, %s, %s, %s), lines at an angle of %.1e, = %s, expected %s" % (p1, V, p2, U, sine, g, mid))
                        rec.step(3)
                    rec.trace()
                rec.states += 1
                rec.outcome(round(want, 4))


def run_quad(c, rec):
    pts = np.array(list(itertools.product(range(c["n"]), repeat=2)))
    m = len(pts)
    I = np.array(list(itertools.product(range(m), repeat=3)))
    quads = np.stack([np.tile(c["a"], (len(I), 1)), pts[I[:, 0]], pts[I[:, 1]], pts[I[:, 2]]], axis=1)
    A, B, C, D = quads[:, 0], quads[:, 1], quads[:, 2], quads[:, 3]
    simple = ~(crosses(A, B, C, D) | crosses(B, C, D, A))
    shoe = sum(quads[:, i, 0] * quads[:, (i + 1) % 4, 1] - quads[:, (i + 1) % 4, 0] * quads[:, i, 1] for i in range(4))
    want = np.abs(shoe) / 2
    got = np.asarray(ray.areaOfQuadrilateral(quads))
    rec.check(got.shape == want.shape, "areaOfQuadrilateral: shape %s" % (got.shape,))
    k = np.nonzero(simple & ~(np.abs(got - want) < 1e-6))[0]
    rec.check(len(k) == 0, lambda: "areaOfQuadrilateral(%s) = %s, expected %s" % (quads[k[0]].tolist(), got[k[0]], want[k[0]]))
    scaled(rec, ray.areaOfQuadrilateral, quads[simple], want[simple])
    sq = quads[:m * m].reshape(m, m, 4, 2) * 0.5 - 7.25
    g = np.asarray(ray.areaOfQuadrilateral(sq))
    w = want[:m * m].reshape(m, m) / 4
    sm = simple[:m * m].reshape(m, m)
    rec.check(g.shape == (m, m) and np.all(np.abs(g - w)[sm] < 1e-6), "areaOfQuadrilateral of a grid")
    for j in range(0, len(quads), 97):
        if simple[j]:
            s = ray.areaOfQuadrilateral(quads[j].tolist())
            rec.check(abs(s - want[j]) < 1e-6, lambda: "areaOfQuadrilateral(%s) = %s, expected %s" % (quads[j].tolist(), s, want[j]))
    rec.step(3)
    rec.states += int(simple.sum())
    rec.trace(int(simple.sum()))
    rec.outcome(want.tolist()[:100])


def check_tri(rec, tri, want):
    got = np.asarray(ray.areaOfTriangle(tri))
    k = np.nonzero(~(np.abs(got - want) < 1e-6))[0] if got.shape == want.shape else [0]
    rec.check(len(k) == 0, lambda: "areaOfTriangle(%s) = %s, expected %s" % (tri[k[0]].tolist(), np.ravel(got)[k[0]], want[k[0]]))
    for j in range(len(tri)):
        s = ray.areaOfTriangle(tri[j])
        rec.check(abs(s - want[j]) < 1e-6, lambda: "areaOfTriangle(%s) = %s, expected %s" % (tri[j].tolist(), s, want[j]))
    rec.step(1 + len(tri))
    rec.states += len(tri)
    rec.trace(len(tri))


def scaled(rec, area, shapes, want):
    """tiny and huge shapes: lengths times an exact power of two"""
    for e in (-40, -20, -10, 10, 20):
        got = np.asarray(area(shapes * 2.0 ** e)) * 4.0 ** -e
        k = np.nonzero(~(np.abs(got - want) < 1e-6))[0]
        rec.check(len(k) == 0, lambda: "%s(%s * 2^%d) = %s * 4^%d, expected %s" % (area.__name__, shapes[k[0]].tolist(), e, got[k[0]], e, want[k[0]]))
        rec.step()


def run_case(c, rec):
    if c["kind"] == "lines":
        run_lines(c, rec)
    elif c["kind"] == "near":
        run_near(c, rec)
    elif c["kind"] == "quad":
        run_quad(c, rec)
    elif c["kind"] == "tri2":
        pts = np.array(list(itertools.product(range(c["n"]), repeat=2)), float)
        I = np.array(list(itertools.product(range(len(pts)), repeat=3)))
        tri = pts[I]
        want = np.abs(orient(tri[:, 0], tri[:, 1], tri[:, 2])) / 2
        check_tri(rec, tri, want)
        scaled(rec, ray.areaOfTriangle, tri, want)
    else:
        pts = np.array(list(itertools.product(range(3), repeat=3)), float)
        I = np.array(list(itertools.product(range(len(pts)), repeat=2)))
        tri = np.stack([np.tile(np.array(c["a"], float), (len(I), 1)), pts[I[:, 0]], pts[I[:, 1]]], axis=1)
        check_tri(rec, tri, np.linalg.norm(np.cross(tri[:, 1] - tri[:, 0], tri[:, 2] - tri[:, 0]), axis=1) / 2)
