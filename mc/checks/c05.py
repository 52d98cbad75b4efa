"""C05: batches are pointwise and shape preserving; arguments and later results are never changed."""
import itertools, os
import numpy as np
import cameratransform as ct
from cameratransform import gps, ray
from mc.util import camera, same

SPECS = [dict(proj=p, lens=l, coef=c, tilt=t, roll=r, heading=h, pos=(3., -2., 20.), fx=500., fy=450., cx=310., cy=250.)
         for p in ("rect", "cyl", "equi") for l, c in (("none", (0, 0, 0)), ("brown", (-0.1, 0.02, 0)), ("abc", (0.01, 0, -0.05)))
         for t, r, h in ((60, 10, 30), (0, 0, 0))]
# integers only: small integer types must not overflow on their way through a camera without a single float
NSPEC = len(SPECS)
SPECS += [dict(proj=p, lens="none", coef=(0, 0, 0), tilt=t, roll=0, heading=0, pos=(3, -2, 20), fx=500, fy=450, cx=310, cy=250, w=640, h=480)
          for p in ("rect", "cyl", "equi") for t in (0, 60)]
GROUPS = [(0, 1), (1, 0), (3, 8), (6, 13), (2, 16), (NSPEC, NSPEC + 1), (0, NSPEC + 3)]
INTS = [np.int8, np.uint8, np.int16, np.uint16, np.uint32, np.uint64]
# image points (all see the ground below the camera for tilt 60 / 0), space points, camera points, gps points: exact in float32
IMG = [[310, 250], [100, 400], [5, 300], [639, 420], [320, 470], [200, 260], [411, 355], [50, 333]]
SPC = [[3, 20, 0], [10, 40, 1], [-20, 60, -3], [5, 9, 2], [0, 100, 10], [33, 44, 5], [3, -2, 0], [-7, 15, -1]]
CAM = [[1, 2, -10], [0, 0, -5], [-3, 1, -7], [4, -4, -4], [2, 3, 8], [1, 0, -1], [0, 1, -2], [-5, -5, -30]]
GPS3 = [[50, 11, 20], [51, 12, 0], [-8, 3, 5], [0, 0, 0], [49, -100, 7], [50, 10, 1], [12, 179, 2], [-70, -70, 100]]
VAL = [0, 3, -2, 5, 1, 4, 2, 6]
TRI = np.array([[[-200., -200, 0], [200, -200, 0], [0, 400, 0]], [[-50, 30, -10], [50, 30, -10], [0, 30, 60]]])


def aug(base, extra):
    return [list(b) + list(e if isinstance(e, list) else [e]) for b, e in zip(base, extra)]


def F(name, pts, call, grid=True, f32=True, alias=True):
    return dict(name=name, pts=np.array(pts, float), call=call, grid=grid, f32=f32, alias=alias)


def functions(cam):
    im2 = IMG[1:] + IMG[:1]
    yield F("imageFromSpace", SPC, lambda p: cam.imageFromSpace(p))
    yield F("imageFromSpace(hide_backpoints=False)", SPC, lambda p: cam.imageFromSpace(p, hide_backpoints=False))
    yield F("spaceFromImage(Z=1)", IMG, lambda p: cam.spaceFromImage(p, Z=1))
    yield F("spaceFromImage(X=-4)", IMG, lambda p: cam.spaceFromImage(p, X=-4))
    yield F("spaceFromImage(Y=7.5)", IMG, lambda p: cam.spaceFromImage(p, Y=7.5))
    yield F("spaceFromImage(D=9)", IMG, lambda p: cam.spaceFromImage(p, D=9))
    yield F("spaceFromImage(mesh)", IMG, lambda p: cam.spaceFromImage(p, mesh=TRI), grid=False, f32=False)
    yield F("getRay", IMG, lambda p: cam.getRay(p)[1])
    yield F("getRay(normed)", IMG, lambda p: cam.getRay(p, normed=True)[1])
    yield F("projection.imageFromCamera", CAM, lambda p: cam.projection.imageFromCamera(p))
    yield F("projection.imageFromCamera(hide_backpoints=False)", CAM, lambda p: cam.projection.imageFromCamera(p, hide_backpoints=False))
    yield F("projection.getRay", IMG, lambda p: cam.projection.getRay(p))
    yield F("projection.getRay(normed)", IMG, lambda p: cam.projection.getRay(p, normed=True))
    yield F("orientation.cameraFromSpace", SPC, lambda p: cam.orientation.cameraFromSpace(p))
    yield F("orientation.spaceFromCamera", CAM, lambda p: cam.orientation.spaceFromCamera(p))
    yield F("orientation.spaceFromCamera(direction)", CAM, lambda p: cam.orientation.spaceFromCamera(p, direction=True))
    yield F("lens.distortedFromImage", IMG, lambda p: cam.lens.distortedFromImage(p), alias=False)
    yield F("lens.imageFromDistorted", IMG, lambda p: cam.lens.imageFromDistorted(p), alias=False)
    yield F("gpsFromSpace", SPC, lambda p: cam.gpsFromSpace(p), grid=False)
    yield F("spaceFromGPS", GPS3, lambda p: cam.spaceFromGPS(p), grid=False, f32=False)
    yield F("gpsFromImage(Z=1)", IMG, lambda p: cam.gpsFromImage(p, Z=1), grid=False)
    yield F("gpsFromImage(D=5)", IMG, lambda p: cam.gpsFromImage(p, D=5), grid=False)
    yield F("imageFromGPS", GPS3, lambda p: cam.imageFromGPS(p), grid=False, f32=False)

    def split(k, f):
        """points with extra columns -> separate arguments of the same container kind"""
        def g(p):
            if isinstance(p, (list, tuple)):
                a = np.array(p)
                one, two = a[..., :k], a[..., k:]
                if two.shape[-1] == 1:
                    two = two[..., 0]
                return f(one.tolist(), two.tolist())
            one, two = p[..., :k], p[..., k:]
            if two.shape[-1] == 1:
                two = two[..., 0]
            return f(one, two)
        return g
    for ax in "XYZD":
        vals = VAL if ax != "D" else [v + 3 for v in VAL]
        yield F("spaceFromImage(%s per point)" % ax, aug(IMG, vals), split(2, lambda p, v, ax=ax: cam.spaceFromImage(p, **{ax: v})))
    yield F("spaceFromImage(X, Y per point)", aug(IMG, VAL), split(2, lambda p, v: cam.spaceFromImage(p, X=v, Y=v)))
    yield F("getObjectHeight", aug(IMG, im2), split(2, lambda p, q: cam.getObjectHeight(p, q)))
    yield F("getObjectHeight(Z=1)", aug(IMG, im2), split(2, lambda p, q: cam.getObjectHeight(p, q, Z=1)))
    yield F("getObjectLength", aug(IMG, im2), split(2, lambda p, q: cam.getObjectLength(p, q)))
    yield F("getObjectLength(Z=1)", aug(IMG, im2), split(2, lambda p, q: cam.getObjectLength(p, q, Z=1)))


def group_functions(g):
    im2 = IMG[1:] + IMG[:1]

    def two(f):
        def h(p):
            if isinstance(p, (list, tuple)):
                a = np.array(p)
                return f(a[..., :2].tolist(), a[..., 2:].tolist())
            return f(p[..., :2], p[..., 2:])
        return h

    def stack(x):
        return np.stack([np.asarray(i) for i in x], axis=-2)
    yield F("imagesFromSpace", SPC, lambda p: stack(g.imagesFromSpace(p)), alias=False)
    yield F("spaceFromImages", aug(IMG, im2), two(lambda p, q: g.spaceFromImages(p, q)), grid=False, f32=False)
    yield F("discanteBetweenRays", aug(IMG, im2), two(lambda p, q: g.discanteBetweenRays(p, q)), grid=False, f32=False)
    if all(isinstance(c.projection, ct.RectilinearProjection) and isinstance(c.lens, ct.NoDistortion) for c in g):
        yield F("pointCorrespondenceError", aug(IMG, im2), two(lambda p, q: np.stack(g.pointCorrespondenceError(p, q), axis=-1)), grid=False, f32=False)


def module_functions():
    g2 = GPS3[1:] + GPS3[:1]

    def two(f, k=3):
        def g(p):
            if isinstance(p, (list, tuple)):
                a = np.array(p)
                return f(a[..., :k].tolist(), a[..., k:].tolist())
            return f(p[..., :k], p[..., k:])
        return g
    h = [2, 3, 4]
    yield F("gps.getDistance", aug(GPS3, g2), two(gps.getDistance), grid=False, f32=False)
    yield F("gps.getBearing", aug(GPS3, g2), two(gps.getBearing), grid=False, f32=False)
    yield F("gps.getDistance(one, many)", GPS3, lambda p: gps.getDistance([50, 10, 1], p), grid=False, f32=False)
    yield F("gps.getDistance(many, one)", GPS3, lambda p: gps.getDistance(p, [50.5, 10, 1]), grid=False, f32=False)
    yield F("gps.getDistance 2D", [q[:2] for q in GPS3], lambda p: gps.getDistance(p, [50.5, 10]), grid=False, f32=False)
    yield F("gps.getBearing 2D", [q[:2] for q in GPS3], lambda p: gps.getBearing(p, [50.5, 10]), grid=False, f32=False)
    yield F("gps.moveDistance", GPS3, lambda p: gps.moveDistance(p, 100, 30), grid=False, f32=False)
    yield F("gps.moveDistance 2D", [q[:2] for q in GPS3], lambda p: gps.moveDistance(p, 100, 30), grid=False, f32=False)
    yield F("gps.moveDistance(per point)", aug(GPS3, [[v, 7 * v] for v in VAL]),
            lambda p: gps.moveDistance(np.asarray(p)[..., :3], np.asarray(p)[..., 3], np.asarray(p)[..., 4]), grid=False, f32=False)
    yield F("gps.moveDistance(one start)", [[v, 7 * v] for v in VAL], lambda p: gps.moveDistance([50, 10, 4], np.asarray(p)[..., 0], np.asarray(p)[..., 1]), grid=False, f32=False)
    yield F("gps.spaceFromGPS", GPS3, lambda p: gps.spaceFromGPS(p, [50., 10.]), grid=False, f32=False)
    yield F("gps.spaceFromGPS 2D", [q[:2] for q in GPS3], lambda p: gps.spaceFromGPS(p, [50., 10.]), grid=False, f32=False)
    yield F("gps.gpsFromSpace", SPC, lambda p: gps.gpsFromSpace(p, [50., 10., 3.]), grid=False)
    yield F("gps.gpsFromSpace 2D", [q[:2] for q in SPC], lambda p: gps.gpsFromSpace(p, [50., 10.]), grid=False)
    o1, o2 = np.array([1., 2, 3]), np.array([0., -5, 1])
    d1 = [[1, 2, 3], [0, 1, 0], [3, -1, 2], [1, 1, 1], [2, 4, 6], [0, 0, 1], [5, -2, 1], [1, 0, 0]]
    d2 = [[2, -1, 1], [1, 0, 0], [0, 1, 3], [1, 2, 1], [1, 2, 3], [1, 1, 0], [0, 0, 1], [-2, 0, 0]]  # rows 4 and 7 parallel
    tw = lambda f: (lambda p: f(np.asarray(p)[..., :3], np.asarray(p)[..., 3:]))
    yield F("ray.intersectionOfTwoLines", aug(d1, d2), tw(lambda a, b: ray.intersectionOfTwoLines(o1, a, o2, b)), grid=False, f32=False)
    yield F("ray.distanceOfTwoLines", aug(d1, d2), tw(lambda a, b: ray.distanceOfTwoLines(o1, a, o2, b)), grid=False, f32=False)
    yield F("ray.getClosestPointFromLine", aug(d1, d2), tw(lambda a, b: ray.getClosestPointFromLine(o1, a, b)), grid=False, f32=False)
    dn = [[d[0], d[1], -abs(d[2]) - 1] for d in d1]
    yield F("ray.ray_intersect_triangle", dn, lambda p: ray.ray_intersect_triangle(np.array([1., 2, 9]), p, TRI), grid=False, f32=False)
    yield F("ray.ray_intersect_triangle(planes)", dn, lambda p: ray.ray_intersect_triangle(np.array([1., 2, 9]), p, TRI, use_planes=True), grid=False, f32=False)
    # every argument has the type of the points
    like = lambda x, p: np.array(x).astype(np.asarray(p).dtype)
    one, oth = [1, 2, 3], [2, 7, 1]
    yield F("ray.intersectionOfTwoLines(one type)", aug(d1, d2), tw(lambda a, b: ray.intersectionOfTwoLines(like(one, a), a, like(oth, a), b)), grid=False, f32=False)
    yield F("ray.distanceOfTwoLines(one type)", aug(d1, d2), tw(lambda a, b: ray.distanceOfTwoLines(like(one, a), a, like(oth, a), b)), grid=False, f32=False)
    yield F("ray.getClosestPointFromLine(one type)", aug(d1, d2), tw(lambda a, b: ray.getClosestPointFromLine(like(one, a), a, b)), grid=False, f32=False)
    pos = [[abs(v) * 9 + 1 for v in d] for d in d1]
    yield F("ray.intersectionOfTwoLines(positive)", aug(pos, pos[1:] + pos[:1]), tw(lambda a, b: ray.intersectionOfTwoLines(like(one, a), a, like(oth, a), b)), grid=False, f32=False)
    yield F("ray.distanceOfTwoLines(positive)", aug(pos, pos[1:] + pos[:1]), tw(lambda a, b: ray.distanceOfTwoLines(like(one, a), a, like(oth, a), b)), grid=False, f32=False)
    yield F("ray.getClosestPointFromLine(positive)", aug(pos, pos[1:] + pos[:1]), tw(lambda a, b: ray.getClosestPointFromLine(like(one, a), a, b)), grid=False, f32=False)
    shape = lambda p, *s: np.asarray(p).reshape(np.asarray(p).shape[:-1] + s)
    tri9 = [list(a) + list(b) + list(c) for a, b, c in zip(pos, pos[1:] + pos[:1], pos[2:] + pos[:2])]
    yield F("ray.areaOfTriangle", tri9, lambda p: ray.areaOfTriangle(shape(p, 3, 3)), grid=False, f32=False)
    yield F("ray.areaOfQuadrilateral", [t[:8] for t in tri9], lambda p: ray.areaOfQuadrilateral(shape(p, 4, 2)), grid=False, f32=False)
    yield F("ray.ray_intersect_triangle(one type)", [[d[0] + 40, d[1] + 30, d[2] + 90] for d in dn],
            lambda p: ray.ray_intersect_triangle(like([1, 2, 3], p), p, like([[0, 0, 100], [120, 0, 110], [60, 126, 127]], p)), grid=False, f32=False)
    yield F("ray.ray_intersect_triangle(one triangle)", dn, lambda p: ray.ray_intersect_triangle(np.array([1., 2, 9]), p, TRI[0]), grid=False, f32=False)


def containers(a, f):
    """(name, value, array to watch or None, loose)"""
    yield "list", a.tolist(), None, False
    yield "tuple", (tuple(map(tuple, a.tolist())) if a.ndim == 2 else tuple(a.tolist())) if a.ndim < 3 else a.tolist(), None, False
    yield "array", a.copy(), "arr", False
    yield "int array", a.astype(int), "arr", False
    yield "int32 array", a.astype(np.int32), "arr", False
    yield "int list", a.astype(int).tolist(), None, False
    ro = a.copy(); ro.flags.writeable = False
    yield "read-only array", ro, "arr", False
    yield "fortran array", np.asfortranarray(a), "arr", False
    big = np.zeros((a.shape[0] * 2,) + a.shape[1:]); big[::2] = a
    if a.ndim > 1:
        yield "strided array", big[::2], "arr", False
        yield "reversed array", a[::-1].copy()[::-1], "arr", False
        yield "list of arrays", [x.copy() for x in a], None, False
        wide = np.full(a.shape[:-1] + (a.shape[-1] + 2,), 77.); wide[..., 1:-1] = a
        yield "columns of a larger array", wide[..., 1:-1], "arr", False
    for t in INTS:
        if a.min() >= np.iinfo(t).min and a.max() <= np.iinfo(t).max:
            yield "%s array" % np.dtype(t).name, a.astype(t), "arr", False
    if f["f32"]:
        yield "float32 array", a.astype(np.float32), "arr", True


def batch_check(rec, f, label, singles, idxs, shape=None, only=None):
    a = f["pts"][list(idxs)]
    want = np.array([singles[i] for i in idxs])
    if shape is not None:
        a = a.reshape(shape + a.shape[1:])
        want = want.reshape(shape + want.shape[1:])
    for cname, val, watch, loose in (containers(a, f) if only is None else [x for x in containers(a, f) if x[0] in only]):
        if isinstance(val, (list, tuple)):
            before = repr(val)
        else:
            before = val.tobytes()
        got = f["call"](val)
        rec.step()
        what = "%s %s of %s as %s" % (label, f["name"], list(idxs) if len(idxs) < 12 else len(idxs), cname)
        after = repr(val) if isinstance(val, (list, tuple)) else val.tobytes()
        rec.check(before == after, what + ": the argument has been changed")
        ok = same(got, want, *((2e-3, 2e-3) if loose else (1e-6, 1e-6)))
        rec.check(ok, lambda: "%s: got %s (shape %s), one by one %s (shape %s)" % (what, np.asarray(got).tolist() if np.size(got) < 50 else "", np.shape(got), want.tolist() if np.size(want) < 50 else "", want.shape))
        if f["alias"] and isinstance(got, np.ndarray) and not isinstance(val, (list, tuple)) and cname == "array":
            got[...] = -12345.
            rec.check(before == val.tobytes(), what + ": writing to the result changes the argument")
            rec.check(same(f["call"](val), want, 1e-6, 1e-6), what + ": writing to the result changes a later result")
            rec.step()
    rec.states += 1
    rec.trace()


def pointwise(rec, funcs, label, tier):
    for f in funcs:
        n = len(f["pts"])
        singles = [np.array(f["call"](f["pts"][i].copy())) for i in range(n)]
        # single points in all containers
        for i in range(n):
            for cname, val, watch, loose in containers(f["pts"][i], f):
                before = repr(val) if isinstance(val, (list, tuple)) else val.tobytes()
                got = f["call"](val)
                rec.step()
                rec.check(before == (repr(val) if isinstance(val, (list, tuple)) else val.tobytes()), "%s %s: the argument has been changed" % (label, f["name"]))
                rec.check(same(got, singles[i], *((2e-3, 2e-3) if loose else (1e-6, 1e-6))), "%s %s of single %s as %s: %s, as array %s" % (label, f["name"], f["pts"][i], cname, got, singles[i]))
        depth = 3
        base = range(4) if tier == "quick" else range(6)
        for m in range(1, depth + 1):
            for idxs in itertools.product(base, repeat=m):
                full = idxs == tuple(range(m)) or (m <= 2 and idxs == tuple(range(n - m, n)))
                batch_check(rec, f, label, singles, idxs, only=None if full or tier == "thorough" else ("array",))
        for m in range(2, n + 1):
            for s in range(n):
                idxs = [(s + k) % n for k in range(m)]
                batch_check(rec, f, label, singles, idxs, only=None if s == 0 else ("array", "list"))
        for m in (16, 33, 257, 1030):
            batch_check(rec, f, label, singles, [(3 * k + k // 5) % n for k in range(m)], only=("array", "strided array"))
        if f["grid"]:
            for shape in ((2, 3), (3, 2), (1, 4), (4, 1), (2, 2), (3, 3), (2, 4), (1, 1), (2, 1, 3), (2, 2, 2), (3, 2, 2)):
                m = int(np.prod(shape))
                for s in range(3):
                    batch_check(rec, f, label, singles, [(s + 3 * k) % n for k in range(m)], shape, only=None if s == 0 else ("array",))


# --- independence of calls -------------------------------------------------------------------------------------------
def queries(scratch):
    img = np.arange(48 * 64, dtype=np.uint8).reshape(48, 64) if False else (np.arange(48)[:, None] * 5 + np.arange(64)[None] * 3).astype(np.uint8)
    im, sp, ca = np.array(IMG, float) / 10, np.array(SPC, float), np.array(CAM, float)
    g3 = np.array(GPS3, float)
    return [
        ("imageFromSpace", lambda c: c.imageFromSpace(sp)), ("imageFromSpace_back", lambda c: c.imageFromSpace(sp, hide_backpoints=False)),
        ("imageFromSpace_1", lambda c: c.imageFromSpace(sp[0])),
        ("spaceFromImage", lambda c: c.spaceFromImage(im)), ("spaceFromImage_X", lambda c: c.spaceFromImage(im, X=5)),
        ("spaceFromImage_D", lambda c: c.spaceFromImage(im, D=5)), ("spaceFromImage_mesh", lambda c: c.spaceFromImage(im, mesh=TRI)),
        ("getRay", lambda c: np.vstack([c.getRay(im)[1], c.getRay(im)[0][None]])), ("getRay_1", lambda c: c.getRay(im[0], normed=True)[1]),
        ("imageFromCamera", lambda c: c.projection.imageFromCamera(ca)), ("proj.getRay", lambda c: c.projection.getRay(im, normed=True)),
        ("cameraFromSpace", lambda c: c.orientation.cameraFromSpace(sp)), ("spaceFromCamera", lambda c: c.orientation.spaceFromCamera(ca)),
        ("distortedFromImage", lambda c: c.lens.distortedFromImage(im.copy())), ("imageFromDistorted", lambda c: c.lens.imageFromDistorted(im.copy())),
        ("gpsFromSpace", lambda c: c.gpsFromSpace(sp)), ("spaceFromGPS", lambda c: c.spaceFromGPS(g3)), ("gpsFromImage", lambda c: c.gpsFromImage(im)),
        ("imageFromGPS", lambda c: c.imageFromGPS(g3)), ("getObjectHeight", lambda c: c.getObjectHeight(im, im[::-1])),
        ("getObjectLength", lambda c: c.getObjectLength(im, im[::-1])), ("getImageHorizon", lambda c: c.getImageHorizon([1, 20, 40])),
        ("distanceToHorizon", lambda c: np.array(c.distanceToHorizon())), ("getPos", lambda c: c.getPos()),
        ("getImageBorder", lambda c: c.getImageBorder(7)), ("getCameraCone", lambda c: c.getCameraCone(D=3)), ("getCameraCone_ground", lambda c: c.getCameraCone(project_to_ground=True)),
        ("getTopViewOfImage", lambda c: c.getTopViewOfImage(img, extent=[-20, 20, 10, 40], scaling=2)),
        ("getTopViewOfImage_Z", lambda c: c.getTopViewOfImage(img, extent=[-20, 20, 10, 40], scaling=2, Z=5.)),
        ("undistortImage", lambda c: c.undistortImage(img)), ("undistortImage_ext", lambda c: c.undistortImage(img, extent=[-5, 60, 3, 40], scaling=3)),
        ("generateLUT", lambda c: c.generateLUT()), ("generateLUT_whole", lambda c: c.generateLUT(undef_value=-1, whole_image=True)),
        ("fov", lambda c: np.array(c.projection.getFieldOfView())), ("focallengthFromFOV", lambda c: np.array(c.projection.focallengthFromFOV(view_x=40))),
        ("logprob", lambda c: np.array(c.getLogProbability())), ("str", lambda c: np.array([len(str(c))])), ("save", lambda c: np.array(c.save(scratch + "/cam%d.json" % os.getpid()) is None)),
    ]


def small_camera(spec):
    return camera(dict(spec, fx=50., fy=45., cx=31., cy=25., w=64, h=48, pos=(3., -2., 20.)))


def params(c):
    return {k: getattr(c, k) for k in c.parameters.parameters}, sorted(c.parameters.get_fit_parameters())


def eq(a, b):
    return same(a, b, 1e-12, 1e-12)


def interference(rec, spec, scratch, first):
    qs = queries(scratch)
    ref = [np.array(q(small_camera(spec))) for _, q in qs]
    na, fa = qs[first]
    for j, (nb, fb) in enumerate(qs):
        cam = small_camera(spec)
        p0 = params(cam)
        a = fa(cam)
        b = fb(cam)
        rec.check(eq(b, ref[j]), lambda: "%s after %s: %s instead of %s" % (nb, na, b, ref[j]))
        if isinstance(a, np.ndarray) and a.flags.writeable and a.dtype != object and a.size:
            a[...] = 99  # writing to a returned array must not leak into the camera
        rec.check(eq(fb(cam), ref[j]), "%s changes after %s and a write to the result of the latter" % (nb, na))
        rec.check(eq(fa(cam), ref[first]), "%s changes when it is repeated (with %s in between)" % (na, nb))
        rec.check(params(cam) == p0, "%s; %s change the parameters of the camera" % (na, nb))
        rec.step(5)
        rec.trace()
        rec.states += 1
        rec.outcome((nb, np.round(np.nan_to_num(np.ravel(ref[j]).astype(float)), 4).tolist()[:6]))


ASSUMPTIONS = ["points of the alphabet are exactly representable in float32; tolerance 1e-6 (2e-3 for float32 input)",
               "stacked grids are claimed for the image, camera and space transforms; the gps and ray functions document single points and lists only"]
BOUNDS = {"quick": "24 cameras (6 with integer parameters only) x 31 camera transforms + 29 gps/ray functions: all batches of length <=3 over 4 points, all rotations of length 2..8, lengths 16,33,257,1030, 11 grid shapes, 19 containers (int8 .. uint64 among them, where they can hold the points); all ordered pairs of 38 queries on 18 cameras",
          "thorough": "as quick, with all batches of length <=3 over 6 points in all containers, and all ordered triples of queries on 6 cameras"}
CHUNK = 1


def cases(tier):
    n = len(queries("/"))
    yield dict(kind="module", tier=tier)
    for a, b in GROUPS:
        yield dict(kind="group", a=a, b=b, tier=tier)
    for s in range(len(SPECS)):
        yield dict(kind="points", spec=s, tier=tier)
    for s in range(NSPEC):
        for q in range(n):
            yield dict(kind="pair", spec=s, first=q)
    if tier == "thorough":
        for s in range(0, NSPEC, 3):
            for q in range(n):
                yield dict(kind="triple", spec=s, first=q)


def run_case(c, rec):
    scratch = os.environ["VERIF_SCRATCH"]
    if c["kind"] == "module":
        pointwise(rec, module_functions(), "", c["tier"])
    elif c["kind"] == "points":
        cam = camera(SPECS[c["spec"]])
        cam.setGPSpos(50., 10., 20.)
        p0 = params(cam)
        pointwise(rec, functions(cam), str(SPECS[c["spec"]]), c["tier"])
        rec.check(params(cam) == p0, "transforms changed the parameters of the camera")
    elif c["kind"] == "group":
        A, B = camera(SPECS[c["a"]]), camera(dict(SPECS[c["b"]], pos=(-7, 4, 16)))
        g = ct.CameraGroup([A.projection, B.projection], [A.orientation, B.orientation], [A.lens, B.lens])
        pointwise(rec, group_functions(g), "group of %s and %s" % (SPECS[c["a"]], SPECS[c["b"]]), c["tier"])
    elif c["kind"] == "pair":
        interference(rec, SPECS[c["spec"]], scratch, c["first"])
    else:
        spec = SPECS[c["spec"]]
        qs = queries(scratch)
        ref = [np.array(q(small_camera(spec))) for _, q in qs]
        for j, k in itertools.product(range(len(qs)), repeat=2):
            cam = small_camera(spec)
            for i in (c["first"], j, k):
                got = qs[i][1](cam)
            rec.check(eq(got, ref[k]), "%s after %s, %s differs" % (qs[k][0], qs[c["first"]][0], qs[j][0]))
            rec.step(3)
            rec.trace()
            rec.states += 1
