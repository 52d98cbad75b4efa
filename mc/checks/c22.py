"""C22: scenes: all shapes of an alphabet, all interleavings of adding to two scenes, and what the views show."""
import itertools, os
import numpy as np
import matplotlib
matplotlib.use("agg")
import matplotlib.pyplot as plt
from matplotlib.figure import Figure
from PIL import Image
import cameratransform as ct
from mc.util import camera, refcam, same

POS = [(0, 0, 0), (1, 2, 3), (-4.5, 20., 0.5), (7., -3., -1.), (0.25, 40., 100.)]
WIDTH = [1, 3, 2.5, 0.3, 10, -2]
GRID = [[0, 1, 2], [-5, 5], [3.], [0.5, -2., 4., 1.], list(range(-10, 11, 5)), [2, 2.5]]
CAMS = [dict(proj="rect", fx=100., fy=110., cx=33., cy=20., w=64, h=48, tilt=80., pos=(0., 0., 4.)),
        dict(proj="rect", fx=60., fy=60., cx=50., cy=40., w=100, h=80, tilt=70., roll=5., heading=20., pos=(1., -2., 6.), lens="brown", coef=(.05, 0., 0.)),
        dict(proj="cyl", fx=30., fy=32., cx=70., cy=20., w=140, h=60, tilt=85., heading=-40., pos=(0., 3., 5.)),
        dict(proj="equi", fx=40., fy=40., cx=90., cy=45., w=180., h=90., tilt=90., heading=90., pos=(-3., 0., 5.), lens="abc", coef=(.01, 0., .01))]
ASSUMPTIONS = ["shapes are compared as sets of corners and of undirected edges (pieces of edges that lie on one line are joined), not as point sequences",
               "line colours and axis labels are not claimed; a scene without camera is only claimed for adding objects"]
BOUNDS = {"quick": "cubes and rectangles: 5 positions x 6 widths x 3 containers; grids: 6 x 6 value lists x 3 containers; histories: all interleavings of <= 4 operations from 10 (add cube/rect/grid/own array to either scene, set 2 cameras each) then plot and render both scenes; 4 cameras x all single objects drawn",
          "thorough": "histories of <= 5 operations"}
CHUNK = 4


def edges(points):
    """undirected edges of a nan separated polyline, with each edge split at every corner (grid lines are kept)"""
    out = set()
    p = np.asarray(points, float)
    for a, b in zip(p[:-1], p[1:]):
        if np.isfinite(a).all() and np.isfinite(b).all() and not np.array_equal(a, b):
            out.add(frozenset([tuple(np.round(a, 9) + 0.), tuple(np.round(b, 9) + 0.)]))
    return out


def corners(points):
    p = np.asarray(points, float)
    return {tuple(np.round(a, 9) + 0.) for a in p if np.isfinite(a).all()}


def seg(*pairs):
    return {frozenset([tuple(np.round(np.array(a, float), 9) + 0.), tuple(np.round(np.array(b, float), 9) + 0.)]) for a, b in pairs if tuple(a) != tuple(b)}


def want_cube(pos, w):
    c = [np.array(pos, float) + np.array(s) * w / 2 for s in itertools.product((-1, 1), repeat=3)]
    return seg(*[(a, b) for a, b in itertools.combinations(c, 2) if np.sum(np.abs(a - b) > 1e-12) == 1]), {tuple(np.round(x, 9) + 0.) for x in c}


def want_rect(pos, w):
    c = [np.array(pos, float) + np.array([a, 0, b]) * w / 2 for a, b in itertools.product((-1, 1), repeat=2)]
    return seg(*[(a, b) for a, b in itertools.combinations(c, 2) if np.sum(np.abs(a - b) > 1e-12) == 1]), {tuple(np.round(x, 9) + 0.) for x in c}


def want_grid(xs, ys):
    s = seg(*[((min(xs), y, 0), (max(xs), y, 0)) for y in ys], *[((x, min(ys), 0), (x, max(ys), 0)) for x in xs])
    c = {tuple(np.round(np.array(q, float), 9) + 0.) for y in ys for q in ((min(xs), y, 0), (max(xs), y, 0))} | {tuple(np.round(np.array(q, float), 9) + 0.) for x in xs for q in ((x, min(ys), 0), (x, max(ys), 0))}
    return s, c


OBJ = {"cube": lambda s: s.addCube((0.5, 15., 1.), 2.), "rect": lambda s: s.addRect((-2., 20., 2.), 3.), "grid": lambda s: s.addGrid([-5, 0, 5], [10, 20]),
       "own": lambda s: s.add(np.array([[0., 12., 0.], [np.nan] * 3, [1., 13., 0.], [2., 14., 1.]])),
       # things that are partly or completely behind the cameras
       "around": lambda s: s.addGrid([-30, 0.5, 31], [-40, 2.5, 45]), "back": lambda s: s.addRect((0.5, -20., 2.), 3.), "mixed": lambda s: s.add(np.array([[0.5, -6., 4.], [1., -30., 9.], [1., 13., 0.], [-25., 0.7, 3.]]))}
WANT = {"cube": want_cube((0.5, 15., 1.), 2.), "rect": want_rect((-2., 20., 2.), 3.), "grid": want_grid([-5, 0, 5], [10, 20]),
        "own": (seg(((1., 13., 0.), (2., 14., 1.))), {(0., 12., 0.), (1., 13., 0.), (2., 14., 1.)})}
OPS = [("cube", 0), ("rect", 0), ("grid", 0), ("own", 0), ("cam", 0), ("cube", 1), ("rect", 1), ("grid", 1), ("cam", 1), ("edit", 0)]


def cases(tier):
    for k in range(3):
        for i in range(len(POS)):
            yield dict(kind="shape", i=i, cont=k)
        for i in range(len(GRID)):
            yield dict(kind="gridshape", i=i, cont=k)
    for c in range(len(CAMS)):
        for o in ("cube", "rect", "grid", "own", "around", "back", "mixed"):
            yield dict(kind="draw", cam=c, obj=o)
    for i in range(len(OPS)):
        for j in range(len(OPS)):
            yield dict(kind="hist", first=i, second=j, tier=tier)


CONT = [tuple, list, np.array]


def check_shape(rec, got, want, what):
    rec.check(np.ndim(got) == 2 and np.shape(got)[1] == 3, lambda: "%s has shape %s" % (what, np.shape(got)))
    rec.check(corners(got) == want[1], lambda: "%s has the corners %s, expected %s" % (what, sorted(corners(got)), sorted(want[1])))
    rec.check(edges(got) == want[0], lambda: "%s: edges %s missing, %s too many" % (what, [sorted(e) for e in want[0] - edges(got)], [sorted(e) for e in edges(got) - want[0]]))
    rec.step()


def image_polyline(spec, obj):
    r = refcam(spec)
    return np.array([[np.nan, np.nan] if not np.isfinite(p).all() else r.image(p) for p in np.asarray(obj, float)])


def has_line(lines, x, y):
    return any(same(l[0], x, 1e-6, 1e-6) and same(l[1], y, 1e-6, 1e-6) for l in lines)


def take(ax):
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.lines]


def verify_views(rec, scene, spec, cam, what, given_axes=True):
    plt.close("all")
    fig = plt.figure()
    axes = [fig.add_subplot(2, 2, i + 1) for i in range(4)]
    scene.plotSceneViews(axes) if given_axes else scene.plotSceneViews()
    if not given_axes:
        axes = fig.axes
    views = [take(a) for a in axes]
    cone = cam.getCameraCone()
    for k, (a, b) in enumerate([(0, 1), (0, 2), (1, 2)]):
        rec.check(has_line(views[k], cone[:, a], cone[:, b]), "%s: view %d does not show the cone of the camera of the scene" % (what, k))
        for o in scene.objects:
            rec.check(has_line(views[k], o[:, a], o[:, b]), "%s: view %d does not show an object" % (what, k))
        rec.check(len(views[k]) == 1 + len(scene.objects), "%s: view %d has %d lines" % (what, k, len(views[k])))
    for o in scene.objects:
        p = image_polyline(spec, o)
        rec.check(has_line(views[3], p[:, 0], p[:, 1]), "%s: the camera view does not show the image of an object" % what)
    rec.check(len(views[3]) == 1 + len(scene.objects), "%s: the camera view has %d lines" % (what, len(views[3])))
    others = [l for l in views[3] if not any(same(l[0], q[:, 0], 1e-6, 1e-6) for q in [image_polyline(spec, o) for o in scene.objects])]
    rec.check(len(others) == 1 and same(cam.getImageHorizon(others[0][0])[:, 1], others[0][1], 1e-6, 1e-3) and min(others[0][0]) == 0 and max(others[0][0]) == spec["w"],
              "%s: the camera view does not show the horizon" % what)
    rec.check(tuple(axes[3].get_xlim()) == (0, spec["w"]) and tuple(axes[3].get_ylim()) == (spec["h"], 0), "%s: limits of the camera view" % what)
    plt.close("all")
    rec.step()


def verify_render(rec, scene, spec, what):
    fn = os.path.join(os.environ["VERIF_SCRATCH"], "r%d.png" % os.getpid())
    if os.path.exists(fn):
        os.remove(fn)
    seen = []
    orig = Figure.savefig

    def savefig(self, *a, **k):
        seen.append([take(ax) for ax in self.axes])
        return orig(self, *a, **k)
    Figure.savefig = savefig
    try:
        scene.renderImage(fn)
    finally:
        Figure.savefig = orig
    im = np.asarray(Image.open(fn).convert("RGB")).astype(int)
    rec.check(im.shape == (spec["h"], spec["w"], 3), lambda: "%s: the rendered image has shape %s, expected %s" % (what, im.shape, (spec["h"], spec["w"])))
    # every drawn corner inside of the image is painted over the background, points far from all lines are not
    bg = np.array(plt.get_cmap(plt.rcParams["image.cmap"])(0.0)[:3]) * 255
    painted = np.abs(im - bg).max(axis=-1) > 40
    near = np.zeros(painted.shape, bool)
    yy, xx = np.mgrid[:spec["h"], :spec["w"]] + 0.5
    for o in scene.objects:
        p = image_polyline(spec, o)
        for a, b in zip(p[:-1], p[1:]):
            if not (np.isfinite(a).all() and np.isfinite(b).all()):
                continue
            d = b - a
            t = np.clip(((xx - a[0]) * d[0] + (yy - a[1]) * d[1]) / max(d @ d, 1e-12), 0, 1)
            near |= np.hypot(xx - a[0] - t * d[0], yy - a[1] - t * d[1]) < 3.5
            for s in np.linspace(0, 1, 12):
                q = a + s * d
                if 2 < q[0] < spec["w"] - 3 and 2 < q[1] < spec["h"] - 3:
                    rec.check(painted[int(q[1]), int(q[0])], lambda: "%s: nothing is painted at %s where an object is seen" % (what, q))
                    rec.states += 1
    inner = np.zeros(painted.shape, bool)
    inner[1:-2, 1:-2] = True
    rec.check(not (painted & ~near & inner).any(), lambda: "%s: something is painted at %s where no object is seen" % (what, np.argwhere(painted & ~near & inner)[:3].tolist()))
    for lines in seen:
        for ls in lines:
            rec.check(len(ls) == len(scene.objects), "%s: %d lines drawn for %d objects" % (what, len(ls), len(scene.objects)))
    rec.step()


def run_case(c, rec):
    if c["kind"] == "shape":
        pos = CONT[c["cont"]](POS[c["i"]])
        for w in WIDTH:
            for name, want in (("Cube", want_cube), ("Rect", want_rect)):
                s = ct.Scene() if hasattr(ct, "Scene") else __import__("cameratransform.scene", fromlist=["Scene"]).Scene()
                got = getattr(s, "add" + name)(pos, w)
                what = "add%s(%s, %s)" % (name, pos, w)
                check_shape(rec, got, want(POS[c["i"]], w), what)
                rec.check(len(s.objects) == 1, what + ": not exactly one object in the scene")
                check_shape(rec, s.objects[0], want(POS[c["i"]], w), what + " stored")
                rec.state((name, POS[c["i"]], w, c["cont"]))
        return
    from cameratransform.scene import Scene
    if c["kind"] == "gridshape":
        for ys in GRID:
            xs, y = CONT[c["cont"]](GRID[c["i"]]), CONT[c["cont"]](ys)
            s = Scene()
            got = s.addGrid(xs, y)
            what = "addGrid(%s, %s)" % (xs, y)
            check_shape(rec, got, want_grid(GRID[c["i"]], ys), what)
            rec.check(len(s.objects) == 1, what + ": not exactly one object in the scene")
            check_shape(rec, s.objects[0], want_grid(GRID[c["i"]], ys), what + " stored")
            rec.state(("grid", tuple(GRID[c["i"]]), tuple(ys), c["cont"]))
        return
    if c["kind"] == "draw":
        s = Scene()
        spec = CAMS[c["cam"]]
        cam = camera(spec)
        OBJ[c["obj"]](s)
        for k in range(c["cam"]):
            OBJ[("cube", "own", "rect")[k % 3]](s)
        # a scene without a camera shows its objects
        plt.close("all")
        axes = [plt.figure().add_subplot(2, 2, i + 1) for i in range(4)]
        s.plotSceneViews(axes)
        for k, (a, b) in enumerate([(0, 1), (0, 2), (1, 2)]):
            lines = [l for l in take(axes[k]) if len(l[0])]
            rec.check(len(lines) == len(s.objects) and all(has_line(lines, o[:, a], o[:, b]) for o in s.objects), "view %d of a scene without a camera does not show its objects" % k)
        rec.check(not [l for l in take(axes[3]) if len(l[0])], "a scene without a camera shows a camera view")
        s.setCamera(cam)
        what = "scene with a %s and camera %d" % (c["obj"], c["cam"])
        verify_views(rec, s, spec, cam, what)
        verify_views(rec, s, spec, cam, what + " (own axes)", False)
        verify_render(rec, s, spec, what)
        other = CAMS[(c["cam"] + 1) % len(CAMS)]
        cam2 = camera(other)
        s.setCamera(cam2)
        verify_render(rec, s, other, what + ", then another camera")
        verify_views(rec, s, other, cam2, what + ", then another camera")
        rec.state(("draw", c["cam"], c["obj"]))
        rec.trace()
        return
    depth = 5 if c["tier"] == "thorough" else 4
    for d in range(0, depth - 1):
        for rest in itertools.product(range(len(OPS)), repeat=d):
            seq = [OPS[k] for k in (c["first"], c["second"]) + rest]
            draw = d <= depth - 4
            scenes = [Scene(), Scene()]
            specs = [dict(CAMS[0]), dict(CAMS[0])]
            shared = camera(CAMS[0])
            cams = [shared, shared]
            for s in scenes:
                s.setCamera(shared)
            model = [[], []]
            n = 0
            for op, i in seq:
                if op == "cam":
                    n = n % 3 + 1
                    cams[i], specs[i] = camera(CAMS[n]), dict(CAMS[n])
                    scenes[i].setCamera(cams[i])
                elif op == "edit":
                    # the camera itself is changed, in every scene that uses it
                    cams[i].heading_deg = 15.
                    for j in (0, 1):
                        if cams[j] is cams[i]:
                            specs[j] = dict(specs[j], heading=15.)
                else:
                    OBJ[op](scenes[i])
                    model[i].append(op)
                rec.step()
            for i in (0, 1):
                what = "scene %d after %s" % (i, seq)
                rec.check(len(scenes[i].objects) == len(model[i]), lambda: "%s: %d objects, expected %s" % (what, len(scenes[i].objects), model[i]))
                for o, name in zip(scenes[i].objects, model[i]):
                    rec.check(corners(o) == WANT[name][1] and edges(o) == WANT[name][0], "%s: the objects are not %s in this order" % (what, model[i]))
                rec.check(scenes[i].camera is cams[i], what + ": has not the camera set for it")
                if draw:
                    verify_views(rec, scenes[i], specs[i], cams[i], what)
                    verify_render(rec, scenes[i], specs[i], what)
            rec.state(tuple(map(tuple, model)) + (repr(specs),))
            rec.trace()
