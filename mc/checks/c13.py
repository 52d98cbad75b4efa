"""C13: rays against meshes on an integer lattice, decided with exact integer arithmetic."""
import itertools
import numpy as np
import cameratransform as ct
from cameratransform import ray
from mc.util import camera, refcam, same

PTS3 = np.array(list(itertools.product(range(3), repeat=3)))
S = 7                     # coordinates of origins are in sevenths, so that lattice rays rarely hit edges exactly
ORIGINS = [(-9, 5, 3), (8, 9, 29), (3, 17, 2), (10, 8, 6)]     # in sevenths
DIRS = [v for v in itertools.product((-3, -1, 0, 2, 5), repeat=3) if any(v)]
# alphabet of triangles of the multi-triangle meshes (vertices on the lattice * 7)
TRI = [((0, 0, 0), (2, 0, 0), (0, 2, 0)), ((0, 2, 0), (2, 0, 0), (0, 0, 0)), ((0, 0, 1), (2, 0, 1), (0, 2, 1)), ((2, 2, 1), (0, 2, 1), (2, 0, 1)),
       ((0, 0, 2), (2, 2, 0), (2, 0, 1)), ((1, 0, 0), (1, 2, 0), (1, 1, 2)), ((1, 1, 2), (1, 2, 0), (1, 0, 0)), ((0, 0, 0), (0, 2, 2), (2, 2, 0)),
       ((0, 1, 0), (2, 1, 1), (0, 1, 2)), ((2, 0, 2), (0, 2, 2), (0, 0, 2)), ((1, 1, 1), (1, 1, 1), (2, 0, 0)), ((0, 0, 0), (1, 1, 1), (2, 2, 2))]
LINES_PTS = [(0, 0), (4, 0), (4, 3), (1, 5), (-2, 2)]
ASSUMPTIONS = ["rays that run exactly within the plane of a triangle, start in it or pass exactly through an edge or corner may be decided either way and are left out",
               "one origin and many directions, or one origin per direction"]
BOUNDS = {"quick": "every ordered lattice triangle (27^3) x %d origins x %d directions; every ordered mesh of up to 2 of %d triangles (incl. reversed, degenerate); the meshes also scaled by 2^-40 .. 2^24; walls of all polylines over %d points with up to 5 vertices (closed ones among them, upwards and downwards) x view points x target lattice; camera meshes" % (len(ORIGINS), len(DIRS), len(TRI), len(LINES_PTS)),
          "thorough": "as quick, with ordered meshes of up to 3 triangles"}
CHUNK = 4


def cases(tier):
    for a in range(27):
        for b in range(0, 27, 9):
            yield dict(kind="single", a=a, b=[b, b + 9])
    n = 2 if tier == "quick" else 3
    for k in range(1, n + 1):
        for m in itertools.combinations(range(len(TRI)), k):
            yield dict(kind="mesh", m=list(m))
    for k in (2, 3, 4, 5):
        for l in itertools.product(range(len(LINES_PTS)), repeat=k):
            if any(l[i] != l[i + 1] for i in range(k - 1)):
                if tier == "thorough" or k < 4 or (k == 4 and l[0] <= l[-1]) or (k == 5 and len(set(l)) >= 4 and (l[0] == l[-1] or l[0] < l[-1] and l[1] in (0, 3))):
                    yield dict(kind="wall", line=list(l))
    for proj in ("rect", "cyl", "equi"):
        for tilt in (0., 30., 60., 90., 120.):
            yield dict(kind="camera", proj=proj, tilt=tilt)


def exact(tris, origin, D):
    """tris (T,3,3) int, origin (3) or (R,3) int, D (R,3) int.  Returns for triangles and for planes:
    distance parameter (T,R) (nan = no hit) and ambiguous (T,R)"""
    O = np.broadcast_to(np.asarray(origin), D.shape)
    v0, v1, v2 = tris[:, 0], tris[:, 1], tris[:, 2]
    n = np.cross(v1 - v0, v2 - v0)
    deg = ~n.any(1)
    b = n @ D.T                                                     # (T,R)
    a = (n * v0).sum(1)[:, None] - n @ O.T
    fwd = (b != 0) & (np.sign(a) * np.sign(b) > 0)
    tpar = np.where(fwd, a / np.where(b == 0, 1, b), np.nan)
    amb_plane = (a == 0) & ~deg[:, None]
    # the hit point times b: b*O + a*D, tested against each edge
    sb = np.sign(b)
    inside = np.ones_like(fwd)
    edge = np.zeros_like(fwd)
    for p, q in ((v0, v1), (v1, v2), (v2, v0)):
        e = q - p
        m = np.cross(n, e)                                          # points inwards
        val = (b * (m @ O.T) + a * (m @ D.T) - b * (m * p).sum(1)[:, None]) * sb
        inside &= val > 0
        edge |= val == 0
    hit = fwd & inside
    near = fwd & edge
    # an edge hit matters only if no other edge excludes the point; keep it simple: ambiguous
    return np.where(hit, tpar, np.nan), near | amb_plane, tpar, amb_plane


def expect(t, amb):
    """nearest hit over the triangles; ambiguous if any ambiguous triangle"""
    return np.where(np.isnan(t), np.inf, t).min(0), amb.any(0)


def compare(rec, got, t, amb, O, D, scale, what):
    got = np.asarray(got)
    O = np.broadcast_to(np.asarray(O, float), D.shape)
    rec.check(got.shape == D.shape, lambda: "%s: shape %s" % (what, got.shape))
    want = np.where(np.isinf(t)[:, None], np.nan, (O + np.where(np.isinf(t), 0, t)[:, None] * D)) / scale
    ok = np.all(np.isnan(got) == np.isnan(want), axis=1) & np.all(np.isnan(want) | (np.abs(got - want) < 1e-7 * S / scale), axis=1)
    k = np.nonzero(~ok & ~amb)[0]
    rec.check(len(k) == 0, lambda: "%s: ray from %s in direction %s gives %s, expected %s" % (what, O[k[0]] / scale, D[k[0]], got[k[0]], want[k[0]]))
    rec.outcome((what[:4], np.isnan(want[:, 0]).tolist()[:64]))


def run_single(c, rec):
    D = np.array(DIRS)
    for b, cc in itertools.product(range(*c["b"]), range(27)):
        tri = np.array([[PTS3[c["a"]], PTS3[b], PTS3[cc]]]) * S
        for oi, o in enumerate(ORIGINS):
            t, amb, tp, ap = exact(tri, np.array(o), D)
            e, am = expect(t, amb)
            compare(rec, ray.ray_intersect_triangle(np.array(o) / S, D * 1.0, tri[0] / S), e, am, o, D, S, "triangle %s" % (tri[0] // S).tolist())
            if (b + cc) % 5 == oi:
                e, am = expect(tp, ap)
                compare(rec, ray.ray_intersect_triangle(np.array(o) / S, D * 1.0, tri[0] / S, use_planes=True), e, am, o, D, S, "plane %s" % (tri[0] // S).tolist())
            rec.step()
            rec.states += len(D)
            rec.trace(len(D))


def run_mesh(c, rec):
    D = np.array(DIRS)
    for m in itertools.permutations(c["m"]):
        tri = np.array([TRI[i] for i in m]) * S
        for o in ORIGINS:
            t, amb, tp, ap = exact(tri, np.array(o), D)
            e, am = expect(t, amb)
            w = "mesh %s" % (list(m),)
            f = np.array(o) / S
            compare(rec, ray.ray_intersect_triangle(f, D * 1.0, tri / S), e, am, o, D, S, w)
            compare(rec, ray.ray_intersect_triangle(f, D * 1e-4, tri / S), e, am, o, D, S, w + " (short directions)")
            compare(rec, ray.ray_intersect_triangle(f.tolist(), D.tolist(), (tri / S).tolist()), e, am, o, D, S, w + " (lists)")
            for k in (-40, -24, -12, 12, 24):  # tiny and huge scenes, seen from as near or far
                scale = S * 2.0 ** -k
                compare(rec, ray.ray_intersect_triangle(np.array(o) / scale, D * 1.0, tri / scale), e, am, o, D, scale, w + " (all lengths times 2^%d)" % k)
                rec.step()
            e2, am2 = expect(tp, ap)
            compare(rec, ray.ray_intersect_triangle(f, D * 1.0, tri / S, use_planes=True), e2, am2, o, D, S, w + " (planes)")
            for k in range(0, len(D), 6):
                g = ray.ray_intersect_triangle(f, D[k] * 1.0, tri / S)
                rec.check(np.shape(g) == (3,), "single ray: shape %s" % (np.shape(g),))
                compare(rec, g[None], e[k:k + 1], am[k:k + 1], o, D[k:k + 1], S, w + " (single ray)")
            rec.step(4 + len(D) // 6)
            rec.states += len(D)
            rec.trace(len(D))
        # one origin per ray
        O = np.array([ORIGINS[k % len(ORIGINS)] for k in range(len(D))])
        t, amb, tp, ap = exact(tri, O, D)
        e, am = expect(t, amb)
        compare(rec, ray.ray_intersect_triangle(O / S, D * 1.0, tri / S), e, am, O, D, S, "mesh %s (origin per ray)" % (list(m),))


def wall_hits(line, z0, z1, o, d):
    """parameters of the hits of the ray with each rectangle of the wall, and the margin to any border/parallel case"""
    best, margin = np.inf, np.inf
    for p, q in zip(line[:-1], line[1:]):
        p, q = np.array(p, float), np.array(q, float)
        e = q - p
        if not e.any():
            continue
        n = np.array([-e[1], e[0]]) / np.linalg.norm(e)
        den = n @ d[:2]
        if abs(den) < 1e-9:
            continue
        t = n @ (p - o[:2]) / den
        h = o + t * d
        u = (h[:2] - p) @ e / (e @ e)
        v = (h[2] - z0) / (z1 - z0)
        # signed distance to the border of the unit square, and distance to both diagonals
        border = min(u, 1 - u, v, 1 - v)
        margin = min(margin, abs(border), abs(t))
        if border > 0:
            margin = min(margin, abs(u - v) , abs(u + v - 1))
            if t > 0 and t < best:
                best = t
    return best, margin


def run_wall(c, rec):
    line = [LINES_PTS[i] for i in c["line"]]
    for z0, z1 in ((0., 2.), (-1., 0.5), (3., 1.)) if len(line) < 5 else ((0., 2.),):
        mesh = ray.extrudeLine(line, z0, z1)
        mesh2 = ray.extrudeLine(np.array(line, float), z0, z1)
        rec.check(same(mesh, mesh2), "extrudeLine depends on the container of the points")
        rec.check(np.asarray(mesh).ndim == 3 and np.asarray(mesh).shape[1:] == (3, 3), "extrudeLine returns triangles")
        for o in ((1.3, -6.1, 1.1), (2.2, 1.9, 7.3), (-5.17, 3.1, -0.7)):
            o = np.array(o)
            D = []
            for p, q in zip(line[:-1], line[1:]):
                for u in (-0.31, 0.03, 0.37, 0.61, 0.97, 1.23):
                    for v in (-0.21, 0.02, 0.45, 0.83, 0.98, 1.17):
                        target = np.array([p[0] + u * (q[0] - p[0]), p[1] + u * (q[1] - p[1]), z0 + v * (z1 - z0)])
                        D.append(target - o)
            D = np.array(D)
            got = ray.ray_intersect_triangle(o, D, mesh)
            for d, g in zip(D, got):
                t, margin = wall_hits(line, z0, z1, o, d)
                if margin < 1e-6:
                    continue
                if np.isinf(t):
                    rec.check(np.isnan(g).all(), lambda: "wall %s (%s..%s): the ray from %s in direction %s misses it but hits at %s" % (line, z0, z1, o, d, g))
                else:
                    rec.check(np.all(np.abs(g - (o + t * d)) < 1e-7), lambda: "wall %s (%s..%s): the ray from %s in direction %s hits it at %s, not %s" % (line, z0, z1, o, d, o + t * d, g))
                rec.states += 1
                rec.trace()
                rec.outcome(np.isinf(t))
            rec.step()


def run_camera(c, rec):
    spec = dict(proj=c["proj"], fx=120., fy=130., cx=52., cy=43., w=100, h=80, tilt=c["tilt"], heading=30., roll=5., pos=(0.3, 0.2, 4.))
    cam, ref = camera(spec), refcam(spec)
    mesh = np.array([[[-9, -9, 0], [9, -9, 0], [-9, 9, 0]], [[9, 9, 0], [9, -9, 0], [-9, 9, 0]], [[-3, 3, -1], [4, 3, -1], [0.5, 3.3, 9]], [[6, 1, 1], [2, 5, 1], [3, 3, 6]]], float)
    pix = np.array([(x, y) for x in np.linspace(-8, 108, 9) for y in np.linspace(-7, 88, 8)])
    got = cam.spaceFromImage(pix, mesh=mesh)
    rec.check(np.shape(got) == (len(pix), 3), "spaceFromImage with a mesh: shape %s" % (np.shape(got),))
    for p, g in zip(pix, got):
        d = ref.space_ray(p)
        best, margin = np.inf, np.inf
        for tri in mesh:
            n = np.cross(tri[1] - tri[0], tri[2] - tri[0])
            t = n @ (tri[0] - ref.t) / (n @ d)
            h = ref.t + t * d
            m = [np.cross(n, tri[(i + 1) % 3] - tri[i]) @ (h - tri[i]) / (n @ n) for i in range(3)]
            margin = min(margin, abs(min(m)))
            if t > 0 and min(m) > 0:
                best = min(best, t)
        if margin < 1e-6:
            continue
        want = np.full(3, np.nan) if np.isinf(best) else ref.t + best * d
        rec.check(same(g, want, 1e-7, 1e-7), lambda: "spaceFromImage(%s, mesh): %s, expected %s" % (p, g, want))
        s = cam.spaceFromImage(p, mesh=mesh)
        rec.check(same(s, want, 1e-7, 1e-7), lambda: "spaceFromImage(%s, mesh) single point: %s, expected %s" % (p, s, want))
        rec.check(same(cam.spaceFromImage(p, mesh=mesh[::-1]), want, 1e-7, 1e-7), "the order of the triangles matters")
        rec.states += 1
        rec.step(2)
        rec.trace()


def run_case(c, rec):
    globals()["run_" + c["kind"]](c, rec)
