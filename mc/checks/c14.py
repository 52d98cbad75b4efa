"""C14: camera groups: which camera uses which part, prefixed names, histories of edits; exact triangulation."""
import itertools
import numpy as np
import cameratransform as ct
from mc.ref import RefCam
from mc.util import projection, lens, same

PROJ = [dict(proj="rect", fx=1000., fy=1100., cx=310., cy=250., w=640, h=480),
        dict(proj="rect", fx=800., fy=790., cx=500., cy=390., w=1000, h=800),
        dict(proj="cyl", fx=600., fy=650., cx=640., cy=200., w=1300, h=420),
        dict(proj="equi", fx=620., fy=640., cx=650., cy=190., w=1310, h=400), dict(proj="rect", fx=1010., fy=990., cx=640., cy=500., w=1280, h=1000)]
ORI = [dict(tilt=80., roll=2., heading=-10., pos=(0., 0., 10.)), dict(tilt=75., roll=-3., heading=12., pos=(-4., 1., 12.)),
       dict(tilt=85., roll=0., heading=5., pos=(3., -2., 9.)), dict(tilt=82., roll=1., heading=-3., pos=(6., 0.5, 8.)), dict(tilt=70., roll=-1., heading=9., pos=(-8., -1., 13.))]
LENS = [("brown", (0.05, 0., 0.)), ("abc", (0., 0.03, 0.01)), ("brown", (0.1, 0.02, 0.)), ("abc", (0.01, 0.02, 0.)), ("brown", (0.03, 0., 0.))]
# further parts for groups of more than ten cameras
PROJ += [dict(p, fx=p["fx"] + 13., cy=p["cy"] - 7.) for p in PROJ] + [dict(p, fy=p["fy"] + 21., cx=p["cx"] + 5.) for p in PROJ[:2]]
ORI += [dict(o, tilt=o["tilt"] - 2.5, heading=o["heading"] + 1.5) for o in ORI] + [dict(o, roll=o["roll"] + 3., heading=o["heading"] - 2.) for o in ORI[:2]]
LENS += [(k, (c[0] + 0.001, c[1] + 0.002, c[2])) for k, c in LENS] + [(k, (c[0] + 0.003, c[1], c[2])) for k, c in LENS[:2]]
POINTS = np.array([[0., 30., 0.], [3., 40., 2.], [-5., 60., 5.], [1., 25., -1.], [4., 90., 20.], [0., 30., 0.]])
NAMES_P = dict(focallength_x_px="fx", focallength_y_px="fy", center_x_px="cx", center_y_px="cy", image_width_px="w", image_height_px="h")
NAMES_O = dict(tilt_deg="tilt", roll_deg="roll", heading_deg="heading", pos_x_m="x", pos_y_m="y", elevation_m="z")
NAMES_L = dict(brown=("k1", "k2", "k3"), abc=("a", "b", "c"), none=())
# part arrangements: single object, None (default), list of 1..3
ARR = ["single", "list1", "list2", "list3"]
ASSUMPTIONS = ["where lists of different lengths above one are mixed, the cameras beyond the shorter list are not claimed",
               "correspondence errors are claimed for distortion-free rectilinear cameras (straight epipolar lines)"]
BOUNDS = {"quick": "all arrangements of single/list1..3 projections x orientations x lenses (incl. none), and of lists of 4 and 5 with single/none/shorter lists and of 12 (single edits); in each, every single edit of every group parameter and every pair of edits from a reduced alphabet, through group, camera, part and defaults, all pairs of parameters and all parameters at once by one fit call; triangulation: 10 camera pairs (alone and as the first two of a group of three) x 6 projection/lens kinds x point lattice x pixel displacements",
          "thorough": "as quick with all pairs of edits of the full alphabet and triples of the reduced one, and a denser point lattice"}
CHUNK = 2


def cases(tier):
    for p, o, l in itertools.product(ARR, ARR + ["none"], ARR + ["none"]):
        yield dict(kind="wire", p=p, o=o, l=l, tier=tier)
    for n in ("list4", "list5"):  # larger groups: single edits only
        for p, o, l in itertools.product(["single", "list2", n], ["single", "none", n], ["single", "none", "list3", n]):
            if n in (p, o, l):
                yield dict(kind="wire", p=p, o=o, l=l, tier=tier, big=True)
    for a in itertools.product(["single", "list12"], ["none", "list12"], ["none", "list12"]):      # more than ten cameras
        if "list12" in a:
            yield dict(kind="wire", p=a[0], o=a[1], l=a[2], tier=tier, big=True)
    for pair in range(len(PAIRS)):
        for k in range(6):
            for extra in (0, 1):
                yield dict(kind="tri", pair=pair, k=k, tier=tier, extra=extra)


def count(a):
    return int(a[4:]) if a.startswith("list") else 1


class World:
    """a real group plus the model: one dict of values per part"""

    def __init__(self, c):
        self.c = c
        np_, no, nl = count(c["p"]), count(c["o"]), count(c["l"])
        self.P = [dict(PROJ[i]) for i in range(np_)]
        self.O = [dict(ORI[i]) for i in range(no)] if c["o"] != "none" else [dict(tilt=85., roll=0., heading=0., pos=(0., 0., 30.))]
        self.L = [list(LENS[i]) for i in range(nl)] if c["l"] != "none" else [["none", (0., 0., 0.)]]
        self.P = [dict(p, kind=p["proj"]) for p in self.P]
        self.O = [dict(tilt=o["tilt"], roll=o["roll"], heading=o["heading"], x=o["pos"][0], y=o["pos"][1], z=o["pos"][2]) for o in self.O]
        self.L = [dict(kind=k, c=list(v)) for k, v in self.L]
        pr = [projection(p["proj"], p["fx"], p["fy"], p["cx"], p["cy"], p["w"], p["h"]) for p in PROJ[:np_]]
        ori = [ct.SpatialOrientation(elevation_m=o["z"], tilt_deg=o["tilt"], roll_deg=o["roll"], heading_deg=o["heading"], pos_x_m=o["x"], pos_y_m=o["y"]) for o in self.O]
        ls = [lens(x["kind"], x["c"]) for x in self.L]
        wrap = lambda a, parts: None if a == "none" else parts[0] if a == "single" else parts
        args = [wrap(c["p"], pr), wrap(c["o"], ori), wrap(c["l"], ls)]
        self.g = ct.CameraGroup(args[0], orientation=args[1], lens=args[2])
        self.parts = (pr, ori if c["o"] != "none" else None, ls if c["l"] != "none" else None)
        self.N = max([count(x) for x in (c["p"], c["o"], c["l"])])

    def index(self, lst, i):
        """the part camera i uses; None if not claimed"""
        return 0 if len(lst) == 1 else i if i < len(lst) else None

    def params(self):
        """group parameter name -> (part list, index, key)"""
        out = {}
        for lst, names in ((self.P, NAMES_P), (self.O, NAMES_O)):
            for j in range(len(lst)):
                for n, k in names.items():
                    out[n if len(lst) == 1 else "C%d_%s" % (j, n)] = (lst, j, k)
        for j, l in enumerate(self.L):
            for q, n in enumerate(NAMES_L[l["kind"]]):
                out[n if len(self.L) == 1 else "C%d_%s" % (j, n)] = (self.L, j, q)
        return out

    def get(self, where):
        lst, j, k = where
        return lst[j]["c"][k] if lst is self.L else lst[j][k]

    def put(self, where, v):
        lst, j, k = where
        if lst is self.L:
            lst[j]["c"][k] = v
        else:
            lst[j][k] = v

    def ref(self, i):
        a, b, c = (self.index(lst, i) for lst in (self.P, self.O, self.L))
        if a is None or b is None or c is None:
            return None
        p, o, l = self.P[a], self.O[b], self.L[c]
        return RefCam(p["kind"], p["fx"], p["fy"], p["cx"], p["cy"], p["w"], p["h"], l["kind"], l["c"], o["tilt"], o["roll"], o["heading"], (o["x"], o["y"], o["z"]))


def value_for(key, lst, world):
    if lst is world.L:
        return 0.021
    return dict(fx=905., fy=955., cx=333., cy=222., w=700, h=500, tilt=77., roll=1.5, heading=8., x=0.7, y=-0.4, z=11.)[key]


def verify(rec, w, how):
    g = w.g
    rec.check(len(g) == w.N and len(list(g)) == w.N and len(g.cameras) == w.N, lambda: "%s: the group has %d cameras, expected %d (%s)" % (how, len(g), w.N, w.c))
    for n, where in w.params().items():
        rec.check(getattr(g, n) == w.get(where), lambda: "%s: group.%s = %s, expected %s (%s)" % (how, n, getattr(g, n), w.get(where), w.c))
    imgs = g.imagesFromSpace(POINTS)
    rec.check(len(imgs) == w.N, "imagesFromSpace gives %d images" % len(imgs))
    for i, cam in enumerate(g):
        rec.check(cam is g[i], "iterating and indexing give different cameras")
        r = w.ref(i)
        if r is None:
            continue
        for lst, names in ((w.P, NAMES_P), (w.O, NAMES_O)):
            j = w.index(lst, i)
            for n, k in names.items():
                rec.check(getattr(cam, n) == lst[j][k], lambda: "%s: camera %d shows %s = %s, its part has %s (%s)" % (how, i, n, getattr(cam, n), lst[j][k], w.c))
        l = w.L[w.index(w.L, i)]
        for q, n in enumerate(NAMES_L[l["kind"]]):
            rec.check(getattr(cam, n) == l["c"][q], lambda: "%s: camera %d shows %s = %s, its lens has %s (%s)" % (how, i, n, getattr(cam, n), l["c"][q], w.c))
        want = np.array([r.image(p) for p in POINTS])
        got = cam.imageFromSpace(POINTS)
        rec.check(same(got, want, 1e-7, 1e-6), lambda: "%s: camera %d images %s, expected %s (%s)" % (how, i, np.asarray(got).tolist(), want.tolist(), w.c))
        rec.check(same(imgs[i], want, 1e-7, 1e-6), lambda: "%s: imagesFromSpace()[%d] = %s, expected %s (%s)" % (how, i, np.asarray(imgs[i]).tolist(), want.tolist(), w.c))
        pix = np.array([[r.cx + 100., r.cy - 40.], [r.cx - 150., r.cy + 90.]])
        d = np.asarray(cam.getRay(pix, normed=True)[1])
        rec.check(same(d, np.array([r.space_ray(p) for p in pix]), 1e-4, 1e-4), lambda: "%s: rays of camera %d (%s)" % (how, i, w.c))
    if w.N > 1 and w.ref(0) is not None and w.ref(1) is not None:
        a, b = w.ref(0), w.ref(1)
        rec.check(abs(g.getBaseline() - np.hypot(*(a.t - b.t)[:2])) < 1e-9, lambda: "%s: getBaseline() = %s (%s)" % (how, g.getBaseline(), w.c))
    rec.step()


def edits(w, full):
    """(name, route) pairs"""
    out = []
    for n, (lst, j, k) in w.params().items():
        if full or k in ("fx", "cx", "tilt", "heading", "x", 0):
            for route in ("group", "camera", "part", "fit"):
                out.append((n, route))
    return out


def apply(w, ed, delta):
    n, route = ed
    lst, j, k = where = w.params()[n]
    v = value_for(k, lst, w) + delta
    plain = n.split("_", 1)[1] if len(lst) > 1 else n
    if route == "group":
        setattr(w.g, n, v)
    elif route == "fit":
        w.g.parameters.set_fit_parameters([n], [v])
    elif route == "camera":
        # some camera that uses this part
        i = [i for i in range(w.N) if w.index(lst, i) == j][-1]
        setattr(w.g[i], plain, v)
    else:
        parts = w.parts[0 if lst is w.P else 1 if lst is w.O else 2]
        if parts is None:
            i = [i for i in range(w.N) if w.index(lst, i) == j][-1]
            setattr(w.g[i].orientation, plain, v)
        else:
            setattr(parts[j], plain, v)
    w.put(where, v)


def run_wire(c, rec):
    w = World(c)
    verify(rec, w, "new group")
    rec.state(repr((c["p"], c["o"], c["l"])))
    full, red = edits(w, True), edits(w, False)
    thorough = c["tier"] == "thorough"
    seqs = [(e,) for e in full]
    red2 = red if thorough else [e for e in red if e[1] in ("group", "camera")][::2]
    if not c.get("big"):
        seqs += list(itertools.product(red2, repeat=2))
    if thorough and not c.get("big"):
        seqs += list(itertools.product([e for e in red if e[1] == "group"][:6], repeat=3))
    for s in seqs:
        w = World(c)
        for step, e in enumerate(s):
            apply(w, e, step * 2 if w.params()[e[0]][0] is not w.L else step * 0.01)
        verify(rec, w, "after %s" % (list(s),))
        rec.state(repr((c["p"], c["o"], c["l"], [(sorted(x.items(), key=str)) for x in w.P + w.O + w.L])))
        rec.trace()
        rec.step(len(s))
    # several group parameters written by one call of the fit interface
    names = sorted({e[0] for e in red})
    multi = ([] if c.get("big") else list(itertools.combinations(names, 2))) + [names, [e[0] for e in full if e[1] == "fit"]]
    for group in multi:
        w = World(c)
        vals = {}
        for n in group:
            where = w.params()[n]
            v = value_for(where[2], where[0], w) + (0.01 * where[1] if where[0] is w.L else 2 * where[1])
            vals[n] = v
            w.put(where, v)
        w.g.parameters.set_fit_parameters(vals) if len(group) % 2 else w.g.parameters.set_fit_parameters(list(vals), list(vals.values()))
        verify(rec, w, "after one fit of %s" % (list(group),))
        rec.state(repr((c["p"], c["o"], c["l"], [(sorted(x.items(), key=str)) for x in w.P + w.O + w.L])))
        rec.trace()
    rec.outcome(repr(w.P + w.O + w.L))
    # defaults and None through the group
    w = World(c)
    for n, where in list(w.params().items()):
        if where[0] is w.O and where[2] in ("tilt", "heading", "x"):
            setattr(w.g, n, None)
            setattr(w.g.defaults, n, 6.5)
            w.put(where, 6.5)
            verify(rec, w, "default of %s" % n)


PAIRS = [(dict(tilt=80., roll=0., heading=5., pos=(-3., 0., 10.)), dict(tilt=80., roll=0., heading=-5., pos=(3., 0., 10.))),
         (dict(tilt=70., roll=4., heading=20., pos=(-6., 2., 14.)), dict(tilt=84., roll=-6., heading=-8., pos=(5., -3., 8.))),
         (dict(tilt=60., roll=0., heading=0., pos=(0., 0., 30.)), dict(tilt=80., roll=90., heading=0., pos=(0., 3., 10.))),
         (dict(tilt=85., roll=0., heading=0., pos=(0., 0., 10.)), dict(tilt=85., roll=0., heading=0., pos=(1., 0., 10.))),
         (dict(tilt=45., roll=0., heading=45., pos=(-20., 10., 20.)), dict(tilt=45., roll=0., heading=-45., pos=(20., 10., 20.))),
         # nearly rectified: epipolar lines that are almost parallel to the image rows
         (dict(tilt=85., roll=0., heading=0., pos=(0., 0., 10.)), dict(tilt=85., roll=0.01, heading=0., pos=(1., 0., 10.005))),
         (dict(tilt=85., roll=0., heading=0., pos=(-3., 0., 10.)), dict(tilt=85.02, roll=0., heading=-0.3, pos=(3., 0.02, 10.))),
         # exactly one or two metres ahead along the optical axis: points of the rays at these distances have no image
         (dict(tilt=90., roll=0., heading=0., pos=(0., 0., 10.)), dict(tilt=90., roll=0., heading=0., pos=(0., 1., 10.))),
         (dict(tilt=60., roll=3., heading=0., pos=(0., 0., 10.)), dict(tilt=60., roll=3., heading=0., pos=(0., 2 * np.sin(np.pi / 3), 9.))),
         (dict(tilt=80., roll=0., heading=-10., pos=(0., 0., 10.)), dict(tilt=80., roll=90., heading=-10., pos=(-2 * np.sin(np.pi * 4 / 9) * np.sin(np.pi / 18), 2 * np.sin(np.pi * 4 / 9) * np.cos(np.pi / 18), 10. - 2 * np.cos(np.pi * 4 / 9))))]
KINDS = [("rect", "none", (0, 0, 0), "rect", "none", (0, 0, 0)), ("rect", "brown", (0.05, 0, 0), "rect", "brown", (0.1, 0.02, 0.)), ("rect", "abc", (0, 0.03, 0.01), "rect", "none", (0, 0, 0)),
         ("cyl", "none", (0, 0, 0), "equi", "none", (0, 0, 0)), ("equi", "none", (0, 0, 0), "rect", "brown", (0.05, 0, 0)), ("cyl", "none", (0, 0, 0), "cyl", "none", (0, 0, 0))]


def run_tri(c, rec):
    o1, o2 = PAIRS[c["pair"]]
    k1, l1, c1, k2, l2, c2 = KINDS[c["k"]]
    r1 = RefCam(k1, 900., 950., 512., 400., 1000, 800, l1, c1, **o1)
    r2 = RefCam(k2, 1000., 1010., 310., 250., 640, 480, l2, c2, **o2)
    mk = lambda o: ct.SpatialOrientation(elevation_m=o["pos"][2], tilt_deg=o["tilt"], roll_deg=o["roll"], heading_deg=o["heading"], pos_x_m=o["pos"][0], pos_y_m=o["pos"][1])
    # (a third camera takes no part)
    E = c.get("extra", 0)
    g = ct.CameraGroup([projection(k1, 900., 950., 512., 400., 1000, 800), projection(k2, 1000., 1010., 310., 250., 640, 480)] + [projection("rect", 700., 700., 300., 200., 600, 400)] * E,
                       [mk(o1), mk(o2)] + [mk(dict(tilt=65., roll=11., heading=28., pos=(2., -7., 17.)))] * E, [lens(l1, c1), lens(l2, c2)] + [lens("abc", (0., 0.02, 0.05))] * E)
    rec.check(abs(g.getBaseline() - np.hypot(*(r1.t - r2.t)[:2])) < 1e-9, lambda: "getBaseline() = %s, positions %s %s" % (g.getBaseline(), r1.t, r2.t))
    n = (5 if not E else 3) if c["tier"] == "quick" else 9
    pts, i1, i2 = [], [], []
    for p in itertools.product(np.linspace(-12, 12, n), np.linspace(15, 90, n), np.linspace(-3, 12, 4)):
        p = np.array(p)
        good = True
        for r in (r1, r2):
            q = r.cam_from_space(p)
            if q[2] >= -1:
                good = False
                break
            und = r.project(q)
            rad = np.linalg.norm((und - [r.cx, r.cy]) / r.lens_scale())
            if r.lens != "none" and rad > 1.2:
                good = False
        if good:
            pts.append(p)
            i1.append(r1.image(p))
            i2.append(r2.image(p))
    pts, i1, i2 = np.array(pts), np.array(i1), np.array(i2)
    rec.check(len(pts) > (3 if E else 15), "harness: too few points")
    tol = 1e-5 if (l1, l2) == ("none", "none") else 3e-2
    base = np.linalg.norm(r1.t - r2.t)
    dist = np.linalg.norm(pts - r1.t, axis=1)
    t3 = tol * (1 + dist ** 2 / base / 100)
    got = g.spaceFromImages(i1, i2)
    rec.check(np.shape(got) == pts.shape, "spaceFromImages: shape %s" % (np.shape(got),))
    err = np.linalg.norm(got - pts, axis=1)
    k = int(np.argmax(err - t3))
    rec.check(np.all(err <= t3), lambda: "spaceFromImages(%s, %s) = %s, the point is %s" % (i1[k], i2[k], got[k], pts[k]))
    dd = g.discanteBetweenRays(i1, i2)
    rec.check(np.shape(dd) == (len(pts),) and np.all(np.abs(dd) < tol), lambda: "discanteBetweenRays is %s for images of the same point" % np.max(np.abs(dd)))
    im = g.imagesFromSpace(pts)
    rec.check(len(im) == 2 + E and same(im[0], i1, 1e-7, 1e-6) and same(im[1], i2, 1e-7, 1e-6), "imagesFromSpace")
    straight = k1 == k2 == "rect" and l1 == l2 == "none"
    if straight:
        e = g.pointCorrespondenceError(i1, i2)
        rec.check(len(e) == 2 and all(np.shape(x) == (len(pts),) for x in e) and np.max(np.abs(e)) < 1e-5, lambda: "pointCorrespondenceError of the images of one point: %s" % np.max(np.abs(e)))
    # displaced images: nearest point of the two rays, their distance and the epipolar distances
    for d1, d2 in (((0, 0), (0, 7)), ((5, -3), (0, 0)), ((2, 9), (-8, 4))):
        a, b = i1 + d1, i2 + d2
        if (l1, l2) == ("none", "none"):
            v1, v2 = np.array([r1.space_ray(p) for p in a]), np.array([r2.space_ray(p) for p in b])
            off = r2.t - r1.t
            bb, d, e = (v1 * v2).sum(1), v1 @ off, v2 @ off
            det = 1 - bb ** 2
            s, t = (d - e * bb) / det, (d * bb - e) / det
            f1, f2 = r1.t + s[:, None] * v1, r2.t + t[:, None] * v2
            far = np.abs(s) + np.abs(t)
            ok = det > 1e-6
            m = g.spaceFromImages(a, b)
            rec.check(np.all(np.abs(m - (f1 + f2) / 2)[ok] <= (1e-6 * far[ok] / det[ok])[:, None] + 1e-6), "spaceFromImages is not midway between the rays (%s)" % ((d1, d2),))
            q = g.discanteBetweenRays(a, b)
            rec.check(np.all(np.abs(q - np.linalg.norm(f1 - f2, axis=1))[ok] <= 1e-5), "discanteBetweenRays is not the distance of the rays (%s)" % ((d1, d2),))
        if straight:
            er = g.pointCorrespondenceError(a, b)
            for (ra, rb, x, y, gotten) in ((r1, r2, a, b, er[0]), (r2, r1, b, a, er[1])):
                for j in range(len(x)):
                    dr = ra.space_ray(x[j])
                    p, q = rb.project(rb.cam_from_space(ra.t + dr * 20), False), rb.project(rb.cam_from_space(ra.t + dr * 50), False)
                    u = q - p
                    w = abs(u[0] * (y[j] - p)[1] - u[1] * (y[j] - p)[0]) / np.linalg.norm(u)
                    if np.linalg.norm(u) > 1:
                        rec.check(abs(gotten[j] - w) < 1e-4 * (1 + w), lambda: "pointCorrespondenceError(%s, %s) = %s, distance to the epipolar line %s" % (x[j], y[j], gotten[j], w))
        rec.step(3)
    # single points
    for j in range(0, len(pts), 3):
        s = g.spaceFromImages(i1[j].tolist(), i2[j])
        rec.check(np.shape(s) == (3,) and np.linalg.norm(s - pts[j]) <= t3[j], lambda: "spaceFromImages of single points %s: %s, expected %s" % (i1[j], s, pts[j]))
        s = g.discanteBetweenRays(i1[j], i2[j].tolist())
        rec.check(np.ndim(s) == 0 and abs(s) < tol, lambda: "discanteBetweenRays of single points: %s" % (s,))
        rec.step(2)
    rec.states += len(pts)
    rec.trace(len(pts))


def run_case(c, rec):
    globals()["run_" + c["kind"]](c, rec)
