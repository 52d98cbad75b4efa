"""C27: trace plots, printed summaries and epipolar plots show what the trace and the cameras say."""
import contextlib, io, itertools, re
import numpy as np
import pandas as pd
import cameratransform as ct
from mc.util import refcam

ROWS = [1, 2, 3, 7, 40]
PATTERN = {"spread": lambda i: np.sin(3.1 * i) * 4 + 57, "const": lambda i: i * 0 + 12.25, "tiny": lambda i: 1e-3 * np.cos(2.3 * i) + 0.02, "large": lambda i: 1e5 * np.sin(1.7 * i), "negative": lambda i: -30 - i % 5}
INDEX = {"plain": lambda n: np.arange(n), "shifted": lambda n: np.arange(n) + 100, "reversed": lambda n: np.arange(n)[::-1]}
PROB = {"last": lambda i: 1. * i, "middle": lambda i: -(i - len(i) // 2) ** 2 * 1., "dead": lambda i: np.where(i % 2 == 0, -np.inf, -i - 1.) if len(i) > 1 else i * 0. - 1}
REL = [dict(pos_x_m=3.), dict(pos_x_m=2., pos_y_m=1., heading_deg=-6.), dict(pos_x_m=-1.5, elevation_m=13., tilt_deg=72., roll_deg=4.), dict(pos_y_m=8., pos_x_m=0.3, heading_deg=3.), dict(pos_x_m=4., heading_deg=-20., roll_deg=-90.)]
ASSUMPTIONS = ["artists are identified by what they show, not by their order or style", "the density curve is only required to be a smooth estimate: not negative, over the range of the values, with an area of at most 1",
               "epipolar plots: distortion-free rectilinear cameras; the fundamental matrix is estimated by OpenCV from exact correspondences, its lines are compared to 2 px"]
BOUNDS = {"quick": "%d traces (rows %s x value patterns x index kinds x places of the most probable row, 1 to 3 columns) x all combinations of skip, number of columns, distributions only, given axes, mean lines; %d relative poses x points: both epipolar plots" % (
    len(ROWS) * len(PATTERN) * len(INDEX) * len(PROB), ROWS, len(REL)), "thorough": "as quick, with all pairs of traces drawn to one figure and 4 point sets"}
CHUNK = 1


def cases(tier):
    for r, i, p in itertools.product(ROWS, INDEX, PROB):
        yield dict(kind="trace", rows=r, index=i, prob=p)
    for a, b in itertools.product(range(len(REL)), range(1 if tier == "quick" else 4)):
        yield dict(kind="epi", rel=a, points=b)
    if tier == "thorough":
        for r, s in itertools.product(ROWS, ROWS):
            yield dict(kind="double", rows=[r, s])


def make_trace(rows, index, prob, pats):
    i = np.arange(rows)
    d = {"tilt_deg": 0, "elevation_m": 1, "C0_roll_deg": 2}
    df = pd.DataFrame({n: np.asarray(PATTERN[p](i), float) for n, p in zip(d, pats)})
    df["probability"] = np.asarray(PROB[prob](i), float)
    df.index = INDEX[index](rows)
    return df


def curves(ax):
    return [np.column_stack([np.atleast_1d(l.get_xdata()).astype(float), np.atleast_1d(l.get_ydata()).astype(float)]) for l in ax.lines]


def summary(rec, df, cam, what, logs):
    """the printed summary: number of rows, mean and standard deviation; of the exponentials where asked for"""
    if logs is not None and any(l and df[n].max() > 300 for l, n in zip(logs, df.columns)):
        return      # no finite numbers
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if logs is None:
            cam.printTraceSummary()
        else:
            ct.statistic.printTraceSummary(df, logs)
    text = out.getvalue()
    what = what if logs is None else "%s, logarithms: %s" % (what, logs)
    rec.check(re.search(r"(^|\D)%d(\D|$)" % len(df), text.splitlines()[0]) is not None, lambda: "%s: the summary does not tell the number of rows: %s" % (what, text))
    for k, n in enumerate(df.columns[:-1]):
        v = df[n].values
        if logs is not None and logs[k]:
            v = np.exp(v)
        line = [l for l in text.splitlines() if l.startswith(n + " ")]
        rec.check(len(line) == 1, lambda: "%s: the summary is %s" % (what, text))
        m = re.fullmatch(re.escape(n) + r" (\S+?)±(\S+)", line[0].strip())
        rec.check(m is not None, lambda: "%s: the summary is %s" % (what, text))
        mean, std = float(m[1]), float(m[2])
        M, S = float(np.mean(v)), float(np.std(v))
        S1 = float(np.std(v, ddof=1)) if len(df) > 1 else S
        ok = lambda s: abs(std - s) <= 0.06 * s + 1e-12 * abs(M) and abs(mean - M) <= max(0.51 * 10 ** np.floor(np.log10(s)), 1e-9) if s > 1e-12 * abs(M) else std <= 1e-9 * abs(M) and abs(mean - M) <= 1e-9 * abs(M)
        rec.check(ok(S) or ok(S1), lambda: "%s: the summary of %s is %s, mean %s, standard deviation %s" % (what, n, line[0], M, S))


def run_trace(c, rec):
    import matplotlib.pyplot as plt
    names = list(PATTERN)
    cam = ct.Camera(ct.RectilinearProjection(focallength_px=500, image=(640, 480)))
    for k, p in enumerate(names):
        for cols in ([p], [p, names[(k + 1) % 5], names[(k + 3) % 5]]):
            df = make_trace(c["rows"], c["index"], c["prob"], cols)
            keep = df.copy()
            cam.set_trace(df)
            what = "trace of %s, %d rows, index %s, most probable: %s" % (cols, c["rows"], c["index"], c["prob"])
            for logs in (None, [True] * len(cols), [False] * (len(cols) - 1) + [True]):
                summary(rec, df, cam, what, logs)
            for skip, N, just, given, lines in itertools.product((1, 2), (None, 1), (False, True), (False, True), (True, False)):
                fig = plt.figure()
                try:
                    kw = dict(just_distributions=just)
                    if skip != 1:
                        kw["skip"] = skip
                    if N is not None:
                        kw["N"] = N
                    if not lines:
                        kw["show_mean_median"] = False
                    if given:
                        kw["axes"] = list(np.ravel(fig.subplots(len(cols), 2)))
                    with contextlib.redirect_stdout(io.StringIO()):
                        cam.plotTrace(**kw)
                    w2 = "%s, plotted with %s" % (what, {a: b for a, b in kw.items() if a != "axes"})
                    shown = {}
                    for ax in fig.axes:
                        if ax.get_xlabel() in cols + list(df.columns):
                            rec.check(ax.get_xlabel() not in shown, "%s: two density axes for one parameter" % w2)
                            shown[ax.get_xlabel()] = ax
                    want = list(df.columns[:-1])[:N]
                    rec.check(sorted(shown) == sorted(want), lambda: "%s: densities of %s, expected %s" % (w2, sorted(shown), want))
                    chains = {ax.get_title(): ax for ax in fig.axes if ax.get_title() in df.columns}
                    rec.check(sorted(chains) == ([] if just else sorted(want)), lambda: "%s: chains of %s" % (w2, sorted(chains)))
                    best = df["probability"].values.argmax()
                    for n in want:
                        v = df[n].values
                        L = curves(shown[n])
                        dens = [l for l in L if len(l) > 2]
                        bars = sorted(l[0, 0] for l in L if len(l) == 2 and l[0, 0] == l[1, 0])
                        expect = sorted([v[best], v.mean()]) if lines else []
                        rec.check(len(bars) == len(expect) and np.allclose(bars, expect, rtol=1e-9, atol=1e-9), lambda: "%s: the density of %s has lines at %s, expected most probable value and mean %s" % (w2, n, bars, expect))
                        if len(set(v[::skip])) > 1:
                            rec.check(len(dens) == 1, lambda: "%s: %d density curves of %s" % (w2, len(dens), n))
                        for l in dens:
                            # (of constant values a curve of no width may be shown)
                            area = np.sum((l[1:, 1] + l[:-1, 1]) / 2 * np.diff(l[:, 0]))
                            rec.check(abs(l[0, 0] - v.min()) < 1e-9 * (1 + abs(v.min())) and abs(l[-1, 0] - v.max()) < 1e-9 * (1 + abs(v.max())), lambda: "%s: the density of %s is shown from %s to %s" % (w2, n, l[0, 0], l[-1, 0]))
                            rec.check(len(set(v[::skip])) < 2 or (l[:, 1] >= 0).all() and 0.05 < area <= 1.001, lambda: "%s: the density of %s has an area of %s" % (w2, n, area))
                        if just:
                            continue
                        L = curves(chains[n])
                        idx = df.index.values[::skip]
                        m = [l for l in L if len(l) == len(idx) and np.array_equal(l[:, 0], idx) and np.array_equal(l[:, 1], v[::skip])]
                        rec.check(len(m) >= 1, lambda: "%s: the chain of %s is not shown" % (w2, n))
                        rest = sorted(l[0, 1] for l in L if len(l) == 2 and l[0, 1] == l[1, 1] and tuple(l[:, 0]) == (0, 1))
                        rec.check(not lines or all(any(abs(y - e) <= 1e-9 * (1 + abs(e)) for y in rest) for e in expect), lambda: "%s: the chain of %s has lines at %s, expected %s" % (w2, n, rest, expect))
                    rec.step()
                finally:
                    plt.close(fig)
            rec.check(df.equals(keep), "%s: the trace was changed" % what)
            rec.trace()
            rec.states += 1
            rec.outcome((tuple(cols), c["rows"]))


def run_double(c, rec):
    """two traces over each other in one figure"""
    import matplotlib.pyplot as plt
    for p, q in itertools.product(PATTERN, PATTERN):
        a, b = make_trace(c["rows"][0], "plain", "last", [p, q]), make_trace(c["rows"][1], "shifted", "middle", [q, p])
        cam = ct.Camera(ct.RectilinearProjection(focallength_px=500, image=(640, 480)))
        fig = plt.figure()
        with contextlib.redirect_stdout(io.StringIO()):
            for t in (a, b):
                cam.set_trace(t)
                cam.plotTrace()
        for n in ("tilt_deg", "elevation_m"):
            ax = [x for x in fig.axes if x.get_title() == n]
            rec.check(len(ax) == 1, "two traces in one figure: %d axes for %s" % (len(ax), n))
            L = curves(ax[0])
            for t in (a, b):
                rec.check(any(np.array_equal(l[:, 0], t.index.values) and np.array_equal(l[:, 1], t[n].values) for l in L if len(l) == len(t)), "two traces in one figure: a chain is missing")
        plt.close(fig)
        rec.trace()
        rec.step(2)
        rec.states += 1


def run_epi(c, rec):
    import matplotlib.pyplot as plt
    base = dict(elevation_m=12., tilt_deg=75.)
    o2 = dict(base, **REL[c["rel"]])
    P = np.array([[x * d, d, z] for k, (x, d, z) in enumerate(itertools.product((-.3, -.1, .13, .28), (14., 22. + c["points"], 40.), (0., 2.5, 5.1)))]) + [0, 3, 0]
    P += 0.37 * np.sin(np.arange(P.size).reshape(P.shape) * 2.7 + c["points"])
    f, cx, cy, w, h = 700., 330., 250., 640, 480
    for two in (False, True):
        mk = lambda: ct.RectilinearProjection(focallength_px=f, image=(w, h), center=(cx, cy))
        g = ct.CameraGroup([mk(), mk()] if two else mk(), [ct.SpatialOrientation(**base), ct.SpatialOrientation(**o2)])
        refs = [refcam(dict(proj="rect", fx=f, fy=f, cx=cx, cy=cy, w=w, h=h, lens="none", coef=(0, 0, 0), tilt=o["tilt_deg"], roll=o.get("roll_deg", 0.), heading=o.get("heading_deg", 0.), pos=(o.get("pos_x_m", 0.), o.get("pos_y_m", 0.), o["elevation_m"]))) for o in (base, o2)]
        im = [np.array([r.image(p) for p in P]) for r in refs]
        ok = np.all([np.isfinite(i).all(1) & (i > 15).all(1) & (i[:, 0] < w - 15) & (i[:, 1] < h - 15) for i in im], 0)
        pts = [i[ok] for i in im]
        rec.check(ok.sum() >= 9, "too few points for this pose")
        noisy = [pts[0] + 3 * np.sin(np.arange(2 * ok.sum()).reshape(-1, 2) * 1.3), pts[1] - 2 * np.cos(np.arange(2 * ok.sum()).reshape(-1, 2) * 2.1)]

        def epiline(i, q):
            """two image points of camera i of the ray through q of the other camera, and its direction"""
            d = refs[1 - i].space_ray(q)
            s = [refs[i].image(refs[1 - i].t + d * t, False) for t in (9., 31.)]
            return s[0], (s[1] - s[0]) / np.linalg.norm(s[1] - s[0])

        # the cameras' own epipolar lines, for displaced points
        for img in (None, np.zeros((h, w), np.uint8)):
            fig = plt.figure()
            keep = [p.copy() for p in noisy]
            before = {n: getattr(g, n) for n in g.parameters.parameters}
            g.plotMyEpiploarLines(noisy[0], noisy[1], *([img, img] if img is not None else []))
            rec.check(all(np.array_equal(a, b) for a, b in zip(keep, noisy)), "plotMyEpiploarLines changes the points")
            rec.check({n: getattr(g, n) for n in before} == before, "plotMyEpiploarLines changes parameters")
            axs = [a for a in fig.axes]
            rec.check(len(axs) == 2, "plotMyEpiploarLines: %d axes" % len(axs))
            for i, ax in enumerate(axs):
                L = curves(ax)
                long = [l for l in L if len(l) > 5]
                rec.check(len(long) == len(noisy[0]), "plotMyEpiploarLines: %d lines for %d points" % (len(long), len(noisy[0])))
                texts = [(t.get_position(), t.get_text()) for t in ax.texts]
                for a, q in zip(noisy[i], noisy[1 - i]):
                    o, e = epiline(i, q)
                    n = np.array([-e[1], e[0]])
                    foot = a - n * np.dot(a - o, n)
                    what = "plotMyEpiploarLines, pose %d, point %s of camera %d" % (c["rel"], a.tolist(), i)
                    far = lambda l: np.abs((l[np.isfinite(l).all(1) & (np.abs(l) < 1e5).all(1)] - o) @ n)
                    rec.check(any(len(far(l)) > 3 and far(l).max() < 0.05 for l in long), lambda: "%s: its epipolar line is not shown" % what)
                    rec.check(any(len(l) == 1 and np.allclose(l[0], a) for l in L), lambda: "%s: the point is not shown" % what)
                    rec.check(any(len(l) == 1 and np.allclose(l[0], foot, atol=0.05) for l in L), lambda: "%s: the closest point of the line %s is not shown" % (what, foot))
                    rec.check(any(len(l) == 2 and np.allclose(l, [a, foot], atol=0.05) for l in L), lambda: "%s: the point is not connected with the closest point" % what)
                    t = [x for p, x in texts if np.allclose(p, a)]
                    rec.check(len(t) == 1 and abs(float(t[0]) - np.linalg.norm(a - foot)) < 0.11, lambda: "%s: the distance is given as %s, true: %s" % (what, t, np.linalg.norm(a - foot)))
                rec.check(len(ax.images) == (img is not None), "plotMyEpiploarLines: images")
            plt.close(fig)
            rec.step()
        # a wrong match whose epipolar line passes outside of the image
        def misses(i, q):
            o, e = epiline(i, np.array(q, float))
            side = [(np.array(p) - o) @ [-e[1], e[0]] for p in ((0, 0), (w, 0), (w, h), (0, h))]
            return np.isfinite(side).all() and min(side) * max(side) > 0 and np.abs(side).min() > 30
        outlier = next(((i, q) for i in (0, 1) for q in itertools.product(np.linspace(0, w, 9), np.linspace(0, h, 9)) if misses(i, q)), None)
        if outlier is not None and len(pts[0]) > 12:
            i, q = outlier
            pair = [np.vstack((p, [w / 2, h / 2] if k == i else q)) for k, p in enumerate(pts)]
            fig = plt.figure()
            with contextlib.redirect_stdout(io.StringIO()):
                g.plotEpilines(pair[0].copy(), pair[1].copy(), np.zeros((h, w), np.uint8), np.ones((h, w), np.uint8))
            for ax, ps in zip(fig.axes, pair):
                L = curves(ax)
                for a in ps:
                    rec.check(any(len(l) == 1 and np.allclose(l[0], a) for l in L), lambda: "plotEpilines with a wrong match, pose %d: point %s is not shown" % (c["rel"], a))
            rec.check(len(fig.axes) == 2, "plotEpilines with a wrong match: %d axes" % len(fig.axes))
            plt.close(fig)
            rec.state(("outlier", c["rel"]))
            rec.step()
        # epipolar lines from the correspondences
        fig = plt.figure()
        with contextlib.redirect_stdout(io.StringIO()):
            g.plotEpilines(pts[0].copy(), pts[1].copy(), np.zeros((h, w), np.uint8), np.ones((h, w), np.uint8))
        rec.check(len(fig.axes) == 2, "plotEpilines: %d axes" % len(fig.axes))
        for i, ax in enumerate(fig.axes):
            L = curves(ax)
            seg = [l for l in L if len(l) == 2]
            for a, q in zip(pts[i], pts[1 - i]):
                o, e = epiline(i, q)
                n = np.array([-e[1], e[0]])
                what = "plotEpilines, pose %d, point %s of camera %d" % (c["rel"], a.tolist(), i)
                rec.check(any(len(l) == 1 and np.allclose(l[0], a) for l in L), lambda: "%s: the point is not shown" % what)
                good = [l for l in seg if np.abs((l - o) @ n).max() < 2]
                rec.check(len(good) > 0, lambda: "%s: its epipolar line is not shown" % what)
                rec.check(any(all(min(abs(x), abs(x - w), abs(y), abs(y - h)) < 1e-3 * w for x, y in l) and np.linalg.norm(l[0] - l[1]) > 20 for l in good), lambda: "%s: the line does not reach the image border" % what)
            v = refs[i].cam_from_space(refs[1 - i].t)
            if abs(v[2]) > 1e-6:  # else the epipole is at infinity
                E = refs[i].image(refs[1 - i].t)  # (not shown when it is behind the camera)
                rec.check(not np.isfinite(E).all() or abs(E).max() > 1e6 or any(len(l) == 1 and np.allclose(l[0], E, atol=1e-6, equal_nan=True) for l in L), lambda: "plotEpilines, pose %d: the other camera at %s is not shown" % (c["rel"], E))
            rec.check(len(ax.images) == 1 and np.all(np.asarray(ax.images[0].get_array()) == i), "plotEpilines: images")
        plt.close("all")
        rec.step()
        rec.states += len(pts[0])
        rec.trace()
        rec.outcome((c["rel"], len(pts[0])))


def run_case(c, rec):
    globals()["run_" + c["kind"]](c, rec)
