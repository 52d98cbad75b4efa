"""C25: plots of fit information and of top views show the given points and what the camera predicts now, and change nothing."""
import itertools
import numpy as np
import cameratransform as ct
from mc.util import camera, refcam
from mc.checks.c17 import BASE, FEET, HEAD, LM_I, LM_S, LM_G, HOR, on_plane, gps_space, horizon, Handed

INFO = ["height", "height1", "heightN", "heightV", "length", "length1", "lengthZ", "lengthN", "length2", "length3", "lm", "lm1", "gps", "hor", "hor1", "heightL", "lengthL", "lmL", "gpsL"]
# (with predictions behind the camera, which are not shown)
INFO_B = ["heightB", "lengthB", "lmB", "gpsB"]
LM_SB, LM_GB = np.array([LM_S[0], [4., -35., 3.]]), np.array([LM_G[0], [-0.0004, 0.00003, 2.]])
EDIT = [None, ("tilt_deg", "tilt", 83.), ("elevation_m", "z", 14.), ("focallength_x_px", "fx", 870.), ("gps_lat", "lat", 0.00004), ("lens", None, None), ("image_width_px", "w", 700), ("image_height_px", "h", 450)]
ASSUMPTIONS = ["artists are identified by what they show (points, connections), not by their order or style", "the rows of the predicted horizon are compared to half a row"]
BOUNDS = {"quick": "3 cameras x all histories (add information, edit or not, plot) with up to 2 pieces of %d kinds, each normal or only for plotting, x %d edits, plotted before and after the edit; single pieces of 4 kinds whose prediction lies behind the camera; top views drawn at 3 extents" % (len(INFO), len(EDIT)),
          "thorough": "as quick with both pieces in both modes and 3 pieces of a reduced set"}
CHUNK = 1


def cases(tier):
    for b in range(len(BASE)):
        for i in range(len(INFO + INFO_B)):
            yield dict(kind="one", base=b, first=i)
        for i in range(len(INFO)):
            yield dict(kind="two", base=b, first=i, tier=tier)
        if tier == "thorough":
            for i in range(0, len(INFO), 2):
                yield dict(kind="three", base=b, first=i, tier=tier)
        yield dict(kind="view", base=b)


def spec(b):
    s = dict(lens="none", coef=(0., 0., 0.))
    s.update(BASE[b])
    return s


def add(cam, op, only, color, var):
    """the arrays are overwritten as soon as they have been given"""
    cp = Handed()
    cp.lists = op[-1] == "L" or op == "hor1"
    r = _add(cam, op, only, color, var, cp)
    cp.spoil()
    return r


def _add(cam, op, only, color, var, cp):
    """adds the information; returns (kind, given, partner, args)"""
    kw = dict(only_plot=True) if only else {}
    if color:
        kw["plot_color"] = color
    if op in ("height", "heightL"):
        cam.addObjectHeightInformation(cp(FEET), cp(HEAD), 1.5, 0.4, **kw)
        return "height", FEET, HEAD, 1.5
    if op == "height1":
        cam.addObjectHeightInformation(cp(FEET[0]), cp(HEAD[0]), 2., 1., **kw)
        return "height", FEET[:1], HEAD[:1], 2.
    if op == "heightN":
        cam.addObjectHeightInformation(cp(FEET), cp(HEAD), cp([1., 2., 3.]), cp([0.3, 0.5, 1.1]), **kw)
        return "height", FEET, HEAD, np.array([1., 2., 3.])
    if op == "heightV":
        cam.addObjectHeightInformation(cp(FEET), cp(HEAD), 1.2, var, **kw)
        return "height", FEET, HEAD, 1.2
    if op == "length":
        cam.addObjectLengthInformation(cp(FEET), cp(FEET[::-1] + 3), 5., 3., **kw)
        return "length", FEET, FEET[::-1] + 3, (5., 0)
    if op == "length1":
        cam.addObjectLengthInformation(cp(FEET[1]), cp(FEET[2]), 4., 3., Z=0.5, **kw)
        return "length", FEET[1:2], FEET[2:3], (4., 0.5)
    if op == "lengthZ":
        cam.addObjectLengthInformation(cp(FEET), cp(HEAD), 5., var, Z=1.3, **kw)
        return "length", FEET, HEAD, (5., 1.3)
    if op == "lengthN":
        cam.addObjectLengthInformation(cp(FEET[:1]), cp(HEAD[:1]), cp([6.]), cp([2.]), Z=-0.5, **kw)
        return "length", FEET[:1], HEAD[:1], (6., -0.5)
    if op in ("length2", "length3", "lengthL"):
        n = int(op[-1]) if op != "lengthL" else 3
        L, U = np.array([6., 3., 4.5])[:n], np.array([2., 1., 3.])[:n]
        cam.addObjectLengthInformation(cp(FEET[:n]), cp(HEAD[:n]), cp(L), cp(U), Z=0.5, **kw)
        return "length", FEET[:n], HEAD[:n], (L, 0.5)
    if op == "heightB":
        cam.addObjectHeightInformation(cp(FEET), cp(HEAD), cp([1., 500., 3.]), 0.5, **kw)
        return "height", FEET, HEAD, np.array([1., 500., 3.])
    if op == "lengthB":
        cam.addObjectLengthInformation(cp(HEAD), cp(FEET), cp([1., 900., 3.]), 0.5, **kw)
        return "length", HEAD, FEET, (np.array([1., 900., 3.]), 0)
    if op == "lmB":
        cam.addLandmarkInformation(cp(LM_I), cp(LM_SB), 4., **kw)
        return "lm", LM_I, LM_SB, None
    if op == "gpsB":
        cam.addLandmarkInformationGPS(cp(LM_I), cp(LM_GB), 4., **kw)
        return "gps", LM_I, LM_GB, None
    if op in ("lm", "lmL"):
        cam.addLandmarkInformation(cp(LM_I), cp(LM_S), cp([3, 3, 5]), **kw)
        return "lm", LM_I, LM_S, None
    if op == "lm1":
        cam.addLandmarkInformation(cp(LM_I[0]), cp(LM_S[0]), cp([1, 2, 3]), **kw)
        return "lm", LM_I[:1], LM_S[:1], None
    if op in ("gps", "gpsL"):
        cam.addLandmarkInformationGPS(cp(LM_I), cp(LM_G), cp([3, 3, 5]), **kw)
        return "gps", LM_I, LM_G, None
    if op == "hor":
        cam.addHorizonInformation(cp(HOR), 10., **kw)
        return "hor", HOR, None, None
    cam.addHorizonInformation(cp(HOR[1:2]), 5., **kw)
    return "hor", HOR[1:2], None, None


def predict(ref, info, lat):
    """(list of point sets that have to be shown, pairs that have to be connected)"""
    kind, a, b, arg = info
    if kind == "height":
        h = np.broadcast_to(arg, len(a))
        p = np.array([ref.image(on_plane(ref, f, 0) + [0, 0, hh]) for f, hh in zip(a, h)])
        return [a, b], p, (b, p)
    if kind == "length":
        L, Z = arg
        L = np.broadcast_to(L, len(a))
        out = []
        for f, k, l in zip(a, b, L):
            P, Q = on_plane(ref, f, Z), on_plane(ref, k, Z)
            out.append(ref.image(P + (Q - P) / np.linalg.norm(Q - P) * l))
        return [a, b], np.array(out), (a, np.array(out))
    if kind in ("lm", "gps"):
        q = b if kind == "lm" else gps_space(b, lat, 0.)
        p = np.array([ref.image(x) for x in q])
        return [a], p, (a, p)
    p = np.stack([a[:, 0], horizon(ref, a[:, 0])], 1)
    return [a], p, (a, p)


_HOR = {}


def horizon_columns(s):
    cols = np.array([0., 1., 99., 333., s["w"] - 40., s["w"] - 3.])
    if repr(s) not in _HOR:
        _HOR[repr(s)] = horizon(refcam(s), cols)
    return cols, _HOR[repr(s)]


def contains(sets, want, tol):
    for s in sets:
        if len(s) == len(want) and np.allclose(s, want, atol=tol, rtol=0, equal_nan=True):
            return True
    return False


def look(rec, cam, s, lat, infos, colors, what, image):
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgba
    before = {n: getattr(cam, n) for n in cam.parameters.parameters}
    prob = cam.getLogProbability()
    fig = plt.figure()
    try:
        cam.plotFitInformation(image) if image is not None else cam.plotFitInformation()
        ax = plt.gca()
        rec.check(plt.gcf() is fig, "plotFitInformation switched to another figure")
        lines = [(np.column_stack([np.atleast_1d(l.get_xdata()).astype(float), np.atleast_1d(l.get_ydata()).astype(float)]), to_rgba(l.get_color())) for l in ax.lines]
        dots = [(np.asarray(c.get_offsets(), float), to_rgba(c.get_edgecolor()[0])) for c in ax.collections]
        ref = refcam(s)
        for info, color in zip(infos, colors):
            given, pred, (pa, pb) = predict(ref, info, lat)
            tol = 0.51 if info[0] == "hor" else 1e-2
            pick = lambda seq: [x for x, col in seq if color is None or col == to_rgba(color)]
            L, D = pick(lines), pick(dots)
            for g in given:
                rec.check(contains(L + D, g, 1e-9), lambda: "%s: the points %s given as %s are not shown" % (what, g.tolist(), info[0]))
            rec.check(contains(L + D, pred, tol), lambda: "%s: the positions %s predicted for %s are not shown; shown are %s" % (what, pred.tolist(), info[0], [x.tolist() for x in D]))
            if info[0] == "hor":
                # a line across the whole image shows the present horizon
                cols, rows = horizon_columns(s)
                full = [x for x in L if len(x) > 3 and not np.isnan(x[:, 0]).any() and x[:, 0].min() <= 2 and x[:, 0].max() >= s["w"] - 3 and np.all(np.diff(x[:, 0]) > 0)]
                rec.check(any(np.nanmax(np.abs(np.interp(cols, x[:, 0], x[:, 1]) - rows)) < 1.01 for x in full), lambda: "%s: no line shows the horizon across the image (%d px wide): lines from %s" % (what, s["w"], [(x[:, 0].min(), x[:, 0].max()) for x in L if len(x) > 3]))
            segs = []
            for x in L:
                brk = np.isnan(x).any(1)
                ok = ~brk[:-1] & ~brk[1:]
                segs.append(np.concatenate([x[:-1], x[1:]], 1)[ok] if len(x) > 1 else np.zeros((0, 4)))
            segs = np.concatenate(segs) if segs else np.zeros((0, 4))
            for u, v in zip(pa, pb):
                if not np.isfinite([u, v]).all():
                    continue
                k = np.abs(segs - np.concatenate([u, v])).max(1) < tol
                k2 = np.abs(segs - np.concatenate([v, u])).max(1) < tol
                rec.check(k.any() or k2.any(), lambda: "%s: %s is not connected with its prediction %s (%s)" % (what, u, v, info[0]))
        rec.check(np.allclose(sorted(ax.get_xlim()), [0, s["w"]]) and np.allclose(ax.get_ylim(), [s["h"], 0]), lambda: "%s: the plot shows %s %s" % (what, ax.get_xlim(), ax.get_ylim()))
        if image is not None:
            rec.check(len(ax.images) == 1 and np.array_equal(np.asarray(ax.images[0].get_array()), image), "%s: the image is not shown" % what)
    finally:
        plt.close(fig)
    after = {n: getattr(cam, n) for n in cam.parameters.parameters}
    rec.check(before == after, lambda: "%s: plotting changed parameters: %s" % (what, {n: (before[n], after[n]) for n in before if before[n] != after[n]}))
    p2 = cam.getLogProbability()
    rec.check(p2 == prob or (np.isnan(p2) and np.isnan(prob)), lambda: "%s: plotting changed the log probability from %s to %s" % (what, prob, p2))
    rec.step()


def history(rec, b, ops, edit, k):
    s = spec(b)
    cam = camera(s)
    lat = 0.
    var = ct.FitParameter("v", lower=0.1, upper=9., value=1.5)
    keep = [x.copy() for x in (FEET, HEAD, LM_I, LM_S, LM_G, HOR)]
    infos, colors = [], []
    for j, (op, only) in enumerate(ops):
        color = [None, "#102030", "#405060"][(j + k) % 3]
        infos.append(add(cam, op, only, color, var))
        colors.append(color)
    what = "camera %d, %s, edit %s" % (b, ops, edit)
    image = (np.arange(s["w"] * s["h"]).reshape(s["h"], s["w"]) % 200).astype(np.uint8) if k % 4 == 0 else None
    if image is not None and k % 8 == 0:
        image = image[::2, ::2].copy()     # (a preview)
    look(rec, cam, s, lat, infos, colors, what + " before", image)
    if edit is not None:
        name, key, v = edit
        if name == "lens":
            if s["lens"] == "none":
                return
            cam.k1 = 0.12
            s = dict(s, coef=(0.12, 0., 0.))
        else:
            setattr(cam, name, v)
            if key == "lat":
                lat = v
            elif key == "z":
                s = dict(s, pos=(s["pos"][0], s["pos"][1], v))
            else:
                s = dict(s, **{key: v})
        look(rec, cam, s, lat, infos, colors, what + " after", None)
    for x, y in zip((FEET, HEAD, LM_I, LM_S, LM_G, HOR), keep):
        rec.check(np.array_equal(x, y), "%s: the given points were changed" % what)
    rec.trace()
    rec.state(repr((b, ops, edit)))
    rec.outcome("+".join(sorted(i[0] for i in infos)))


def run_case(c, rec):
    b = c["base"]
    if c["kind"] == "view":
        import matplotlib.pyplot as plt
        s = spec(b)
        cam = camera(s)
        img = (np.arange(640 * 480).reshape(480, 640) % 251).astype(np.uint8)
        exts = [[-10, 10, 5, 40], [-5.5, 12.25, 10., 31.], [0, 8, 20, 24]]
        for seq in itertools.product(range(len(exts)), repeat=3):
            for i in seq:
                fig = plt.figure()
                ext = list(exts[i])
                view = cam.getTopViewOfImage(img, extent=ext, scaling=0.25, do_plot=True, alpha=[None, 0.5][i % 2])
                im = plt.gca().images
                rec.check(len(im) == 1 and np.array_equal(np.asarray(im[0].get_array()), view) and np.allclose(im[0].get_extent(), exts[i]), lambda: "the drawn top view covers %s, expected %s" % (im[0].get_extent(), exts[i]))
                rec.check(ext == exts[i] and np.array_equal(view, cam.getTopViewOfImage(img, extent=exts[i], scaling=0.25)), "drawing the top view changes it")
                plt.close(fig)
                # an undistorted image (in colour or not), drawn over its extent to within a pixel
                e2 = [[0, 64, 0, 48], [100, 180, 50, 90], [-20, 44, 440, 500]][i]
                a = img if i != 1 else np.dstack((img, img[::-1], img[:, ::-1]))
                fig = plt.figure()
                und = cam.undistortImage(a, extent=list(e2), scaling=1, do_plot=True, alpha=[None, 0.5][i % 2])
                im = plt.gca().images
                rec.check(len(im) == 1 and np.array_equal(np.asarray(im[0].get_array()), und) and np.allclose(im[0].get_extent(), [e2[0], e2[1], e2[3], e2[2]], rtol=0, atol=1), lambda: "the drawn undistorted image covers %s, expected %s" % (im[0].get_extent(), e2))
                rec.check(np.array_equal(und, cam.undistortImage(a, extent=list(e2), scaling=1)), "drawing the undistorted image changes it")
                plt.close(fig)
                rec.step()
            rec.trace()
        return
    f = (INFO + INFO_B)[c["first"]]
    if c["kind"] == "one":
        for only in (False, True):
            for k, e in enumerate(EDIT):
                history(rec, b, [(f, only)], e, k)
    elif c["kind"] == "two":
        for j, g in enumerate(INFO):
            for o1, o2 in ((False, False), (True, False), (False, True), (True, True)) if c["tier"] == "thorough" else ((j % 2 == 0, False), (False, True)):
                history(rec, b, [(f, o1), (g, o2)], EDIT[(j + c["first"] + o1) % len(EDIT)], j + o2)
    else:
        for j, (g, h) in enumerate(itertools.product(INFO[::2], repeat=2)):
            history(rec, b, [(f, False), (g, j % 2 == 0), (h, j % 3 == 0)], EDIT[j % len(EDIT)], j)
