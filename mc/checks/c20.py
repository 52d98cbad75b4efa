"""C20: horizon, image border and view cone against the reference camera."""
import itertools, math
import numpy as np
from mc.ref import R_EARTH
from mc.util import camera, refcam, same

KIND = [("rect", 60., 64.), ("cyl", 40., 42.), ("equi", 36., 35.)]
LENS = [("none", (0, 0, 0)), ("brown", (0.03, 0., 0.)), ("abc", (0., 0.02, 0.01))]
TILT_Q = [0., 45., 70., 80., 85., 90., 95., 110.]
ROLL_Q = [0., 5., -30., 90., 180.]
ELEV = [0.5, 2., 30., 3000.]
SIZE = [(48, 36), (29, 24)]
TALL = [1025, 2048, 4001]
ASSUMPTIONS = ["cameras above the ground", "rows are compared where the viewing rays are defined (inside the invertible range of the lens)"]
BOUNDS = {"quick": "3 projections x 3 lenses x %d tilts x %d rolls x %d elevations x 2 image sizes; all integer columns and some between and outside; 7 border spacings; images with up to 4001 rows; cones at 3 distances and on the ground" % (len(TILT_Q), len(ROLL_Q), len(ELEV)),
          "thorough": "as quick with tilts every 5 and rolls every 15 degrees"}


def cases(tier):
    tilts = TILT_Q if tier == "quick" else [float(t) for t in range(0, 181, 5)]
    rolls = ROLL_Q if tier == "quick" else [float(t) for t in range(-180, 180, 15)]
    for (k, fx, fy), (l, c), t, r in itertools.product(KIND, LENS, tilts, rolls):
        yield dict(proj=k, f=[fx, fy], lens=l, coef=list(c), tilt=t, roll=r)
    # images with many rows
    for (k, fx, fy), (l, c), rows, t in itertools.product(KIND, LENS[:2], TALL, (84., 90.)):
        yield dict(proj=k, f=[fx * rows / 36, fy * rows / 36], lens=l, coef=list(c), tilt=t, roll=0. if t == 90 else 5., rows=rows)


def spec(c, size, elev):
    w, h = size
    return dict(proj=c["proj"], fx=c["f"][0], fy=c["f"][1], cx=w / 2 + 1.3, cy=h / 2 - 0.8, w=w, h=h, lens=c["lens"], coef=tuple(c["coef"]), tilt=c["tilt"], roll=c["roll"], heading=33., pos=(4., -7., elev))


def horizon(c, rec, cam, ref, w, h, elev):
    ang = math.acos(R_EARTH / (R_EARTH + elev))
    d = 2 * R_EARTH * math.sin(ang / 2)
    got = cam.distanceToHorizon()
    rec.check(abs(got - d) <= 1e-4 * d, lambda: "distanceToHorizon() = %s at elevation %s, expected %s" % (got, elev, d))
    cols = [0, w / 2, w] + [float(x) for x in range(-2, w + 3, 5)] + [0.25, w - 0.5]
    default = np.asarray(cam.getImageHorizon())
    hor = np.asarray(cam.getImageHorizon(cols))
    rec.check(default.shape == (3, 2) and same(default[:, 0], [0, w / 2, w]), lambda: "default horizon columns %s" % default.tolist())
    rec.check(hor.shape == (len(cols), 2) and same(hor[:, 0], cols), lambda: "horizon columns %s, requested %s" % (hor[:, 0].tolist(), cols))
    rec.check(same(hor[:3], default), "the horizon of the default columns differs from requesting them")
    for k, x in enumerate(cols):
        z = np.array([elev + d * ref.space_ray((x, y))[2] for y in range(h)])
        if np.isnan(z).all():
            continue
        rec.states += 1
        y = hor[k, 1]
        best = np.nanmin(np.abs(z))
        inside = np.nanmin(z) < 0 < np.nanmax(z)
        if inside:
            rec.check(y == int(y) and 0 <= y < h and abs(z[int(y)]) <= best + 1e-6 * d, lambda: "the horizon in column %s is at row %s, the ray there meets the horizon distance at height %s (nearest possible %s)" % (x, y, z[int(y)] if 0 <= y < h else None, best))
            rec.outcome((y, c["tilt"]))
    for x in (cols[0], w / 2, np.float64(w - 0.5)):
        s = np.asarray(cam.getImageHorizon(x))
        rec.check(s.shape == (2,) and same(s, np.asarray(cam.getImageHorizon([x]))[0]), lambda: "getImageHorizon(%s) = %s, in a list %s" % (x, s, cam.getImageHorizon([x])))
    rec.step(6)


def border(rec, cam, w, h):
    for res in (1, 2, 5, 7, 0.5, w, 1000):
        want = [[0, y] for y in np.arange(0, h, res)] + [[x, h] for x in np.arange(0, w, res)] + [[w, y] for y in np.arange(h, 0, -res)] + [[x, 0] for x in np.arange(w, 0, -res)]
        got = cam.getImageBorder(res)
        rec.check(same(got, want), lambda: "getImageBorder(%s) of a %dx%d image: %s" % (res, w, h, np.asarray(got).tolist()))
        rec.step()
    rec.check(same(cam.getImageBorder(), cam.getImageBorder(1)), "the default spacing of the border is 1")


def cone(rec, cam, ref, w, h, rtol):
    corners = [(0, h), (w, h), (w, 0), (0, 0)]
    dirs = [ref.space_ray(p) for p in corners]
    for D in (1, 3.5, 200., 0.25):
        got = np.asarray(cam.getCameraCone(D=D) if D != 1 else cam.getCameraCone())
        pts = np.array([ref.t + D * d for d in dirs])
        check_cone(rec, got, np.array(list(pts) + [pts[0]]), pts, ref, rtol, D, "cone at distance %s" % D)
    got = np.asarray(cam.getCameraCone(project_to_ground=True))

    def ground(p):
        d = ref.space_ray(p)
        t = -ref.t[2] / d[2]
        return (ref.t + t * d if t > 0 else np.full(3, np.nan)), abs(d[2]) < 0.02
    seq = [[0, y] for y in range(h)] + [[x, h] for x in range(w)] + [[w, y] for y in range(h, 0, -1)] + [[x, 0] for x in range(w, 0, -1)]
    line = [ground(p) for p in seq]
    pts = [ground(p) for p in corners]
    check_cone(rec, got, np.array([p for p, _ in line]), np.array([p for p, _ in pts]), ref, rtol, None, "cone on the ground", np.array([a for _, a in line]), [a for _, a in pts])
    rec.step(4)


def check_cone(rec, got, line, corners, ref, rtol, D, what, skip=None, cskip=None):
    n = len(line)
    rec.check(got.ndim == 2 and got.shape[1] == 3 and len(got) >= n, lambda: "%s: shape %s" % (what, got.shape))
    dist = np.where(np.isnan(line), 1, np.linalg.norm(line - ref.t, axis=1)[:, None])
    ok = np.all((np.abs(got[:n] - line) <= rtol * (1 + dist) * np.maximum(1, dist / ref.t[2] if D is None else 1)) | (np.isnan(line) & np.isnan(got[:n])), axis=1)
    if skip is not None:
        ok |= skip
    k = np.nonzero(~ok)[0]
    rec.check(len(k) == 0, lambda: "%s: border point %d is %s, expected %s" % (what, k[0], got[k[0]], line[k[0]]))
    rest = got[n:]
    seg, cur = [], []
    for row in rest:
        if np.isnan(row).any():
            if cur:
                seg.append(np.array(cur))
            cur = []
        else:
            cur.append(row)
    if cur:
        seg.append(np.array(cur))
    hit = set()
    for s in seg:
        rec.check(same(s[0], ref.t, 1e-9, 1e-9), lambda: "%s: a line starts at %s, not at the camera" % (what, s[0]))
        if len(s) > 1:
            rec.check(len(s) == 2, "%s: a line with %d points" % (what, len(s)))
            ds = [np.linalg.norm(s[1] - p) / (1 + np.linalg.norm(p - ref.t)) for p in corners]
            near = [i for i, v in enumerate(ds) if v <= rtol * (1 + np.linalg.norm(corners[i] - ref.t) / ref.t[2])]
            rec.check(near or (cskip is not None and any(cskip)), lambda: "%s: a line ends at %s, the corners are at %s" % (what, s[1], corners.tolist()))
            hit |= set(near)
    for i, p in enumerate(corners):
        if not np.isnan(p).any() and not (cskip is not None and cskip[i]):
            rec.check(i in hit, lambda: "%s: no line to the corner at %s" % (what, p))
    rec.states += n
    rec.outcome((what, len(hit)))


def run_tall(c, rec):
    size, elev = (40, c["rows"]), 30.
    s = spec(c, size, elev)
    cam, ref = camera(s), refcam(s)
    d = 2 * R_EARTH * math.sin(math.acos(R_EARTH / (R_EARTH + elev)) / 2)
    cols = [0, 20., 33.5]
    hor = np.asarray(cam.getImageHorizon(cols))
    for k, x in enumerate(cols):
        z = np.array([elev + d * ref.space_ray((x, y))[2] for y in range(size[1])])
        rec.check(np.nanmin(z) < 0 < np.nanmax(z), "harness: no horizon")
        y, best = hor[k, 1], np.nanmin(np.abs(z))
        rec.check(y == int(y) and 0 <= y < size[1] and abs(z[int(y)]) <= best + 1e-6 * d, lambda: "the horizon in column %s of an image with %d rows is at row %s, the nearest ray is that of row %d" % (x, size[1], y, np.nanargmin(np.abs(z))))
        rec.states += 1
        rec.step()
        rec.outcome((y, c["tilt"]))
    got = np.asarray(cam.getCameraCone(project_to_ground=True))
    rec.check(len(got) >= 2 * sum(size), lambda: "the cone of an image with %d rows has %d points" % (size[1], len(got)))
    b = np.asarray(cam.getImageBorder(1))
    rec.check(b.shape == (2 * sum(size), 2) and same(b[:size[1]], np.array([[0, y] for y in range(size[1])])), "getImageBorder of an image with %d rows" % size[1])
    rec.trace()


def run_case(c, rec):
    if "rows" in c:
        return run_tall(c, rec)
    for size, elev in itertools.product(SIZE, ELEV):
        # the size of the image may be a computed (float) number
        s = spec(c, size if elev == ELEV[0] else tuple(map(float, size)), elev)
        cam, ref = camera(s), refcam(s)
        horizon(c, rec, cam, ref, *size, elev)
        if elev == ELEV[0]:
            border(rec, cam, *size)
            s = dict(s, w=size[0] + 0.5, h=size[1] + 0.5)       # (also possible as the result of a fit)
            border(rec, camera(s), s["w"], s["h"])
        cone(rec, cam, ref, *size, 1e-7 if c["lens"] == "none" else 1e-4)
        rec.trace()
