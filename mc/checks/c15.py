"""C15: object heights, object lengths and pixel areas against an independent projection of known objects."""
import itertools
import numpy as np
from mc.util import camera, refcam, same

ORI = [dict(tilt=85., roll=0., heading=0., pos=(0., 0., 16.)), dict(tilt=60., roll=7., heading=130., pos=(5., -3., 20.)), dict(tilt=30., roll=-20., heading=-75., pos=(-40., 8., 35.)),
       dict(tilt=95., roll=2., heading=10., pos=(0., 0., 9.)), dict(tilt=0., roll=0., heading=0., pos=(1., 2., 50.)), dict(tilt=110., roll=180., heading=200., pos=(0., 0., 4.)), dict(tilt=80., roll=90., heading=45., pos=(2., 1., 12.)),
       dict(tilt=70., roll=0., heading=0., pos=(0., 0., -6.)), dict(tilt=75., roll=2., heading=20., pos=(4.4e5 + .3, 5.5e6 + .7, 21.))]
LENS = [("none", (0, 0, 0)), ("brown", (0.05, 0., 0.)), ("abc", (0., 0.02, 0.01))]
KIND = [("rect", 900., 950.), ("cyl", 500., 520.), ("equi", 450., 430.)]
HEIGHTS = [0., 0.3, 1.7, 5., 30., -1.2]
PLANES = [0., 2., -3., 40.]
ASSUMPTIONS = ["objects whose foot is within 1 m of the point below the camera or outside the field of view of a rectilinear camera are left out", "images of objects are produced by the reference model, within the range where the lens is invertible",
               "lens inversion by interpolation is accurate to 1e-4 of a pixel; tolerances are scaled accordingly"]
BOUNDS = {"quick": "3 projections x 3 lenses x %d orientations x %d planes x polar lattice of feet (8 directions x 5 distances) x %d heights, and lengths between neighbouring lattice points; LUTs of 12x9 and 13x9 images, per row and whole image, 3 undefined values; changes of one parameter by 3 small amounts and back between queries" % (len(ORI), len(PLANES), len(HEIGHTS)),
          "thorough": "as quick with 24 directions x 9 distances and 40x30 and 41x30 images"}
CHUNK = 2


def cases(tier):
    for (k, fx, fy), (l, c), o in itertools.product(KIND, LENS, range(len(ORI))):
        yield dict(kind="object", proj=k, f=[fx, fy], lens=l, coef=list(c), o=o, tier=tier)
        yield dict(kind="lut", proj=k, f=[fx, fy], lens=l, coef=list(c), o=o, tier=tier)
        yield dict(kind="edit", proj=k, f=[fx, fy], lens=l, coef=list(c), o=o, tier=tier)


def spec(c, w=640, h=480):
    s = w / 640
    return dict(proj=c["proj"], fx=c["f"][0] * s, fy=c["f"][1] * s, cx=310. * s, cy=250. * s, w=w, h=h, lens=c["lens"], coef=tuple(c["coef"]), **ORI[c["o"]])


def seen(ref, p):
    """undistorted and distorted image or None if not usable"""
    q = ref.cam_from_space(p)
    if ref.proj == "rect" and q[2] > -0.2 * np.linalg.norm(q):
        return None
    if ref.proj != "rect" and abs(q[1]) > 3 * np.hypot(q[0], q[2]):
        return None
    u = ref.project(q)
    if ref.lens != "none":
        r = np.linalg.norm((u - [ref.cx, ref.cy]) / ref.lens_scale())
        if r > 1.5 or r > 0.9 * ref.monotone_radius():
            return None
    return ref.distort(u)


def run_object(c, rec):
    s = spec(c)
    cam, ref = camera(s), refcam(s)
    nd, nr = (8, 5) if c["tier"] == "quick" else (24, 9)
    ptol = 1e-7 if c["lens"] == "none" else 3e-4          # pixel accuracy
    for Z in PLANES:
        dz = Z - ref.t[2]
        if abs(dz) < 1:
            continue
        objs = []
        feet = {}
        for i, j in itertools.product(range(nd), range(nr)):
            rad = np.geomspace(1.5, 150, nr)[j]
            a = 2 * np.pi * i / nd + 0.1
            foot = np.array([ref.t[0] + rad * np.sin(a), ref.t[1] + rad * np.cos(a), Z])
            f = seen(ref, foot)
            if f is None:
                continue
            feet[i, j] = (foot, f)
            for h in HEIGHTS:
                head = foot + [0, 0, h]
                g = seen(ref, head)
                if g is not None:
                    d = np.linalg.norm(foot - ref.t)
                    # distance error of the foot along the ray, and of the head
                    tol = 1e-7 + ptol / min(c["f"]) * (d * d / abs(dz)) * (2 + (abs(dz) + abs(h)) / rad) * 2 + ptol / min(c["f"]) * (rad ** 2 + (dz + h) ** 2) / rad
                    objs.append((f, g, h, tol, foot))
        if not objs:
            continue
        F, G = np.array([o[0] for o in objs]), np.array([o[1] for o in objs])
        H, T = np.array([o[2] for o in objs]), np.array([o[3] for o in objs])
        got = cam.getObjectHeight(F, G, Z=Z)
        rec.check(np.shape(got) == H.shape, lambda: "getObjectHeight: shape %s" % (np.shape(got),))
        k = np.nonzero(~(np.abs(got - H) <= T))[0]
        rec.check(len(k) == 0, lambda: "getObjectHeight: an object of height %s standing at %s is computed as %s (Z=%s)" % (H[k[0]], objs[k[0]][4], got[k[0]], Z))
        rec.check(same(cam.getObjectHeight(F.tolist(), G.tolist(), Z=[Z] * len(F)), got, 1e-9, 1e-9), "getObjectHeight with a list of plane heights")
        if Z == 0:
            rec.check(same(cam.getObjectHeight(F, G), got, 1e-12), "getObjectHeight assumes Z=0")
        for k in range(0, len(objs), 7):
            x = cam.getObjectHeight(F[k], G[k], Z=Z)
            rec.check(np.ndim(x) == 0 and abs(x - got[k]) <= 1e-9 * (1 + abs(got[k])), lambda: "getObjectHeight of a single object %s, in the batch %s" % (x, got[k]))
        rec.states += len(objs)
        rec.trace(len(objs))
        rec.step(3 + len(objs) // 7)
        rec.outcome((Z, np.round(H, 3).tolist()[:50]))
        # lengths
        A, B, L, T = [], [], [], []
        for (i, j), (p, f) in feet.items():
            for other in ((i, j + 1), ((i + 1) % nd, j), ((i + 3) % nd, (j + 2) % nr), (i, j)):
                if other in feet:
                    q, g = feet[other]
                    A.append(f)
                    B.append(g)
                    L.append(np.linalg.norm(p - q))
                    T.append(1e-7 + 4 * ptol / min(c["f"]) * (np.linalg.norm(p - ref.t) ** 2 + np.linalg.norm(q - ref.t) ** 2) / abs(dz))
        A, B, L, T = np.array(A), np.array(B), np.array(L), np.array(T)
        got = cam.getObjectLength(A, B, Z=Z)
        rec.check(np.shape(got) == L.shape, lambda: "getObjectLength: shape %s" % (np.shape(got),))
        k = np.nonzero(~(np.abs(got - L) <= T))[0]
        rec.check(len(k) == 0, lambda: "getObjectLength(%s, %s, Z=%s) = %s, true length %s" % (A[k[0]], B[k[0]], Z, got[k[0]], L[k[0]]))
        rec.check(same(cam.getObjectLength(A.tolist(), B.tolist(), Z=[Z] * len(A)), got, 1e-9, 1e-9), "getObjectLength with a list of plane heights")
        rec.check(same(cam.getObjectLength(B, A, Z=Z), got, 1e-9, 1e-9), "getObjectLength depends on the direction")
        x = cam.getObjectLength(A[0], B[0], Z=Z)
        rec.check(np.ndim(x) == 0 and abs(x - got[0]) <= 1e-9 * (1 + got[0]), "getObjectLength of a single object")
        if Z == 0:
            rec.check(same(cam.getObjectLength(A, B), got, 1e-12), "getObjectLength assumes Z=0")
        rec.states += len(A)
        rec.trace(len(A))
        rec.step(4)
    # different planes in one call
    pl, fe, he, hh = [], [], [], []
    for k in range(nd * 3):
        Z = PLANES[k % 3]
        foot = np.array([ref.t[0] + 20 * np.sin(k * 2.1), ref.t[1] + 20 * np.cos(k * 2.1), Z])
        f, g = seen(ref, foot), seen(ref, foot + [0, 0, 2.])
        if f is not None and g is not None and abs(Z - ref.t[2]) > 2:
            pl.append(Z), fe.append(f), he.append(g), hh.append(2.)
    if len(pl) > 1:
        got = cam.getObjectHeight(np.array(fe), np.array(he), Z=np.array(pl))
        rec.check(same(got, hh, 1e-7 if ptol < 1e-5 else 0.02, 1e-7), lambda: "getObjectHeight on different planes: %s" % got)
        rec.step()


def run_lut(c, rec):
    w, h = (12, 9) if c["tier"] == "quick" else (40, 30)
    w += c["o"] % 2             # every other image has a middle column of pixels
    # the size of the image may be a computed (float) number
    s = spec(c, *((w, h) if c["o"] % 3 else (float(w), np.float64(h))))
    cam, ref = camera(s), refcam(s)

    def ground(p):
        d = ref.space_ray(p)
        if np.isnan(d).any():
            return "skip"
        t = -ref.t[2] / d[2]
        if abs(d[2]) < 1e-3:
            return "skip"          # next to the horizon
        return ref.t + t * d if t > 0 else None

    def area(x, y):
        P = [ground((x + a, y + b)) for a, b in ((-.5, -.5), (.5, -.5), (.5, .5), (-.5, .5))]
        if any(isinstance(p, str) for p in P):
            return None
        if any(p is None for p in P):
            return np.nan
        P = [p - P[0] for p in P]
        return abs(sum(P[i][0] * P[(i + 1) % 4][1] - P[(i + 1) % 4][0] * P[i][1] for i in range(4))) / 2

    rtol = 1e-6 if c["lens"] == "none" else 5e-3
    row = [area(w / 2, y) for y in range(h)]
    whole = [[area(x, y) for x in range(w)] for y in range(h)]
    for undef in (0, -7.5, float("nan")):
        lut = cam.generateLUT(undef_value=undef)
        rec.check(np.shape(lut) == (h,), "generateLUT: shape %s" % (np.shape(lut),))
        for y in range(h):
            if row[y] is not None:
                want = undef if np.isnan(row[y]) else row[y]
                rec.check(same(lut[y], want, rtol, 1e-9), lambda: "generateLUT: row %d has %s, expected %s" % (y, lut[y], want))
        full = cam.generateLUT(undef_value=undef, whole_image=True)
        rec.check(np.shape(full) == (h, w), "generateLUT of the whole image: shape %s" % (np.shape(full),))
        for y, x in itertools.product(range(h), range(w)):
            if whole[y][x] is not None:
                want = undef if np.isnan(whole[y][x]) else whole[y][x]
                rec.check(same(full[y][x], want, rtol, 1e-9), lambda: "generateLUT: pixel (%d, %d) has %s, expected %s" % (x, y, full[y][x], want))
        rec.step(2)
    rec.check(same(cam.generateLUT(), cam.generateLUT(0, False), 1e-12), "generateLUT: the undefined value is 0 by default")
    rec.states += h + h * w
    rec.trace(h + h * w)
    rec.outcome(repr([None if r is None else "nan" if np.isnan(r) else round(np.log(r), 1) for r in row]))


NAMES = ["focallength_x_px", "focallength_y_px", "focallength_px", "center_x_px", "center_y_px", "tilt_deg", "roll_deg", "heading_deg", "elevation_m", "pos_x_m", "pos_y_m"]
KNOBS = {"none": [], "brown": ["k1", "k2", "k3"], "abc": ["a", "b", "c"]}
EDITS = {"quick": [1e-5, 3e-4, 0.02], "thorough": [1e-7, 1e-5, 3e-4, 1e-3, 0.02, 0.3]}


def run_edit(c, rec):
    """queries, a small change of one parameter, the queries again, the change undone, the queries again: always those of a camera built with these values"""
    s = spec(c, 12, 9)
    feet, heads = np.array([[3.25, 6.5], [8., 7.], [5., 8.]]), np.array([[3.25, 5.5], [8.5, 3.], [5., 8.]])
    queries = [lambda m: m.generateLUT(), lambda m: m.generateLUT(undef_value=-2, whole_image=True), lambda m: m.getObjectHeight(feet, heads), lambda m: m.getObjectHeight(feet, heads, Z=-1.5),
               lambda m: m.getObjectLength(feet, heads), lambda m: m.getObjectLength(feet, heads, Z=[-1.5, 0.5, 1])]
    cam = camera(s)
    values = {n: getattr(cam, n) for n in NAMES + KNOBS[c["lens"]]}
    first = [q(cam) for q in queries]
    for n, e in itertools.product(values, EDITS[c["tier"]]):
        for step, v in (("changed", values[n] + e), ("restored", values[n])):
            setattr(cam, n, v)
            if n == "focallength_px" and step == "restored":
                cam.focallength_x_px, cam.focallength_y_px = values["focallength_x_px"], values["focallength_y_px"]
            if step == "changed":
                fresh = camera(s)
                setattr(fresh, n, v)
                want = [q(fresh) for q in queries]
            else:
                want = first
            for i, q in enumerate(queries):
                got = q(cam)
                rec.check(same(got, want[i], 1e-13, 1e-13), lambda: "%s: after %s was %s to %s, query %d gives %s, that of a new camera is %s" % (s, n, step, v, i, got, want[i]))
            rec.step(len(queries) + 1)
            rec.states += 1
            rec.trace()
        rec.outcome((n, e, [bool(same(a, b, 1e-12, 1e-12)) for a, b in zip(want, first)]))


def run_case(c, rec):
    globals()["run_" + c["kind"]](c, rec)
