"""C18: samplers and fits under scripted random numbers: every history of random draws and log-probability outcomes up to a depth."""
import itertools, math
import numpy as np
import pandas as pd
import cameratransform as ct
from mc.util import projection

NAMES = ["tilt_deg", "elevation_m", "roll_deg"]
LO, HI, START, STEP = [40., 5., -10.], [80., 25., 10.], [57., 12.3, 1.], [3., 2., 1.]
# bounds and start; in the second set one bound of every parameter is exactly zero
BOX = [(tuple(LO), tuple(HI), tuple(START)), ((0., -20., 0.), (40., 0., 20.), (17., -12.7, 11.))]
# outcome of one proposal: change of the log-probability and the acceptance draw (negative: relative to the acceptance probability)
OUT = [("up", 1.0, 0.9), ("same", 0.0, 0.9), ("downA", -0.7, 0.20), ("downR", -0.7, 0.90), ("edgeA", -0.9, -(1 - 1e-6)), ("edgeR", -0.9, -(1 + 1e-6)), ("inf", -np.inf, 1e-9), ("nan", np.nan, 1e-9)]
# additional parameters: name, lower, upper, value, step
EXTRA = [("var", -2., 3., 0.7, 1.), ("aux", 20., 30., 24., 2.)]
EXTRAS = [tuple(EXTRA), (("var", 0., 5., 2.7, 1.), ("aux", -10., 0., -6., 2.))]
U = [1e-9, 0.5, 1 - 1e-9]
FMETHODS = [None, "TNC", "SLSQP", "Powell", "Nelder-Mead"]
ASSUMPTIONS = ["random numbers come from numpy's global generator; its state is replaced before every draw by one that yields the scripted uniform numbers",
               "the acceptance number is the first number drawn after a proposal was evaluated", "numpy scripted uniforms are at least 1e-9 away from 0 and 1 (the bounds themselves have probability 0)",
               "the first sample after the burn-in may or may not be recorded"]
BOUNDS = {"quick": "all histories of 3 proposals over 8 outcomes (4 for the last) x 3 proposal draws (1 and 2 parameters, camera/group/with one or two additional parameters); bounds away from zero and bounds of exactly zero; starting positions without probability; burn-in adaption runs of 420 steps for 7 base patterns (every change of the step size) x 3 draw patterns x single deviations; fits: 5 optimisers x 27 optima (inside, on and outside the bounds) x 3 starts; histories of 3 proposals together with the rows of an earlier trace; drawing from traces with up to 6 rows; bayesian fridge with a scripted sampling package; all histories of 3 of %d ways of giving and clearing information with additional parameters for two cameras" % 10,
          "thorough": "histories of 4 proposals, adaption runs of 1050 steps"}
CHUNK = 1


# --- scripting numpy's global Mersenne twister -------------------------------------------------------------------
def _untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9d2c5680)
    y = x & 0xffffffff
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xffffffff


_UT = {}


def words(v):
    """the two generator words that make numpy's random() return v"""
    if v not in _UT:
        m = int(v * 2 ** 53)
        _UT[v] = (_untemper(((m >> 26) << 5) & 0xffffffff), _untemper(((m & (2 ** 26 - 1)) << 6) & 0xffffffff))
    return _UT[v]


_KEYS = {}


def script(values, fill=0.5):
    k = (tuple(values), fill)
    if k not in _KEYS:
        if len(_KEYS) > 3000:
            _KEYS.clear()
        seq = [w for v in values for w in words(v)]
        f = words(fill)
        key = np.array((seq + list(f) * 312)[:624], dtype=np.uint32)
        _KEYS[k] = ("MT19937", key, 0, 0, 0.0)
    np.random.set_state(_KEYS[k])


def init_worker():
    for v in (0.25, 1e-9, 1 - 1e-9, 0.4966):
        script([v, 0.75])
        a, b = np.random.rand(), np.random.uniform(0, 1)
        assert abs(a - v) < 1e-15 and abs(b - 0.75) < 1e-15, (a, b)


def make(kind):
    ori = ct.SpatialOrientation(elevation_m=12., tilt_deg=60., roll_deg=1.)
    if kind == "group":
        return ct.CameraGroup([projection("rect"), projection("rect")], [ori, ct.SpatialOrientation(tilt_deg=50.)])
    return ct.Camera(projection("rect"), ori)


def cases(tier):
    depth = 3 if tier == "quick" else 4
    steps = [(o, u) for o in range(len(OUT)) for u in range(3)]
    red = [(o, u) for o in (0, 2, 3, 6) for u in range(3)]
    for first in steps:
        for second in steps:
            yield dict(kind="chain", n=1, target="camera", prefix=[first, second], rest=depth - 2, steps=red if tier == "quick" else steps)
    for first in red:
        for second in red:
            yield dict(kind="chain", n=2, target="camera", prefix=[first, second], rest=1, steps=red)
        for t, n in (("group", 1), ("camera+", 1), ("camera++", 1)):
            yield dict(kind="chain", n=n, target=t, prefix=[first], rest=2, steps=red)
        for t, n in (("group", 1), ("camera", 2), ("camera++", 1)):
            yield dict(kind="chain", n=n, target=t, prefix=[first], rest=1, steps=red, box=1)
    for k in (1, 2, 5):
        for u in range(3):
            for t, n in (("camera", 2), ("camera+", 1)):
                yield dict(kind="chain", n=n, target=t, prefix=[], rest=2, steps=red, dead=k, du=u)
    for pat in range(7):
        for up in range(3):
            yield dict(kind="long", pat=pat, up=up, dev=None, n=420, box=1)
            for dev in (None, 0, 100, 199, 200, 201, 299, 300, 301, 399, 400, 405):
                yield dict(kind="long", pat=pat, up=up, dev=dev, n=420 if tier == "quick" else 1050)
    for m in range(len(FMETHODS)):
        for opt in itertools.product((-1, 0, 1), repeat=3):
            yield dict(kind="fit", m=m, opt=list(opt), n=3 if tier == "thorough" else 2)
            if opt[2] == 0 or tier == "thorough":
                yield dict(kind="fit", m=m, opt=list(opt), n=3 if tier == "thorough" else 2, box=1)
    for rows in range(1, 7):
        for cut in range(2):
            yield dict(kind="trace", rows=rows, cut=cut)
    yield dict(kind="hopeless")
    for first in range(len(XOPS)):
        yield dict(kind="extras", first=first, depth=depth)
    for target in ("camera", "group"):
        yield dict(kind="distribution", target=target)
    for first in range(len(OUT)):
        yield dict(kind="prior", first=first)
    for n in (1, 2, 3):
        for extra in (0, 1):
            for target in ("camera", "group"):
                yield dict(kind="fridge", n=n, extra=extra, target=target)


def params(target, n):
    names = NAMES[:n]
    if target == "group":
        names = ["C0_" + x for x in names]
    return [ct.FitParameter(nm, lower=LO[i], upper=HI[i], value=START[i], step=STEP[i]) for i, nm in enumerate(names)]


def within(rec, pos, what, names=None):
    for v, lo, hi in zip(pos, LO, HI):
        rec.check(lo - 1e-9 <= v <= hi + 1e-9, lambda: "%s: the position %s is outside of the bounds [%s, %s]" % (what, list(pos), lo, hi))


def mass(pos, lo, hi, step):
    """log of the part of the normal distributions around a position that lies within the bounds"""
    phi = lambda z: 0.5 * math.erfc(-z / math.sqrt(2))
    return sum(math.log(phi((b - x) / s) - phi((a - x) / s)) for x, a, b, s in zip(pos, lo, hi, step))


def run_one(rec, c, seq, what):
    n, target = c["n"], c["target"]
    obj = make("group" if target == "group" else "camera")
    ps = params(target, n)
    ebox = EXTRA[:target.count("+")]
    extra = [ct.FitParameter(nm, lower=a, upper=b, value=v, step=s) for nm, a, b, v, s in ebox]
    N = n + len(extra)
    dead = c.get("dead", 0)          # this many starting positions have no probability
    evals, memo, rows = [], {}, []
    st = dict(start=None, chain=False, i=-1, last=None, pos=None)
    U2 = [U[1], U[2], U[0]]
    lo, hi, step = (v[:n] + [e[q] for e in ebox] for v, q in ((LO, 1), (HI, 2), (STEP, 4)))

    def after(k, r=0.5):
        """script the draws that follow the evaluation of proposal k (-1: the starting position)"""
        u = seq[k + 1][1] if k + 1 < len(seq) else 1
        us = [U[u], U2[u], U[u]][:N]
        script(([r] if k >= 0 else []) + us)

    def logp():
        pos = tuple(float(getattr(obj, p.__name__)) for p in ps) + tuple(float(e.value) for e in extra)
        evals.append(pos)
        if st["start"] is None and len(memo) < dead:
            memo[pos] = -np.inf
            script([0.2 + 0.1 * len(evals) + 0.02 * c["du"]] * 3)
            return -np.inf
        if st["start"] is None or (pos == st["start"] and not st["chain"]):
            st["start"], st["pos"], st["last"] = pos, pos, -10.
            memo[pos] = -10.
            after(-1)
            return -10.
        st["chain"] = True
        st["i"] += 1
        o = OUT[seq[st["i"]][0]] if st["i"] < len(seq) else OUT[0]
        memo.setdefault(pos, st["last"] + o[1])
        v = -np.inf if np.isnan(memo[pos]) else memo[pos]
        # the Metropolis rule for normal proposals cut off at the bounds
        p = math.exp(min(0., v - st["last"] + mass(st["pos"], lo, hi, step) - mass(pos, lo, hi, step)))
        r = o[2] if o[2] >= 0 else min(1 - 1e-9, -o[2] * p)
        if p == 1 or r < p:
            st["last"], st["pos"] = v, pos
        rows.append(list(st["pos"]) + [st["last"]])
        after(st["i"], r)
        return memo[pos]

    obj.addCustomoLogProbability(logp, extra or None)
    script([0.5] * 3)
    trace = obj.metropolis(ps, iterations=len(seq), burn=0, disable_bar=True, print_trace=False)
    for pos in evals:
        within(rec, pos[:n], what)
        for (nm, a, b, _, _), v in zip(ebox, pos[n:]):
            rec.check(a - 1e-9 <= v <= b + 1e-9, lambda: "%s: the additional parameter %s is %s, outside of its bounds" % (what, nm, v))
    rec.check(list(trace.columns) == [p.__name__ for p in ps] + [e[0] for e in ebox] + ["probability"], lambda: "%s: columns %s" % (what, list(trace.columns)))
    got = trace.values.tolist()
    rec.check(len(rows) == len(seq), lambda: "%s: %d proposals evaluated in %d iterations" % (what, len(rows), len(seq)))
    rec.check(len(seq) - 1 <= len(got) <= len(seq), lambda: "%s: %d rows for %d iterations" % (what, len(got), len(seq)))
    want = rows[-len(got):]
    rec.check(np.allclose(np.array(got, float), np.array(want, float), rtol=0, atol=1e-12), lambda: "%s: the trace is %s, the Metropolis rule gives %s" % (what, got, want))
    for row in got:
        m = memo.get(tuple(row[:-1]))
        rec.check(m is not None and (row[-1] == m or (np.isnan(m) and row[-1] == -np.inf)), lambda: "%s: the row %s records another log-probability than that of its parameters (%s)" % (what, row, m))
    # the camera shows the most probable row
    best = max(r[-1] for r in got)
    shown = [float(getattr(obj, p.__name__)) for p in ps]
    rec.check(any(r[-1] == best and r[:n] == shown for r in got), lambda: "%s: afterwards the camera shows %s, the trace is %s" % (what, shown, got))
    rec.check(obj.parameters.trace.equals(trace), "the trace is not stored")
    rec.states += 1
    rec.trace()
    rec.step(len(evals))
    rec.outcome(tuple(np.round(np.ravel(got), 6)))


def run_chain(c, rec):
    for rest in itertools.product([tuple(s) for s in c["steps"]], repeat=c["rest"]):
        seq = [tuple(s) for s in c["prefix"]] + list(rest)
        run_one(rec, c, seq, "outcomes %s" % ([(OUT[o][0], U[u]) for o, u in seq],))


def run_long(c, rec):
    """burn-in with adaption of the step size: bounds and rows"""
    cam = make("camera")
    ps = params("camera", 2)
    st = dict(i=0, cur=None)
    log = []

    def logp():
        pos = (float(cam.tilt_deg), float(cam.elevation_m))
        i = st["i"]
        st["i"] += 1
        accept = [True, False, i % 2 == 0, i % 9 == 0, i % 6 != 0, i % 5 < 3, i % 30 == 0][c["pat"]]
        if c["dev"] is not None and i == c["dev"]:
            accept = not accept
        u = [U[0], U[2], U[i % 3]][c["up"]]
        if i < 2:
            v = 0.
            st["cur"] = (pos, v)
        else:
            v = st["cur"][1] + (0.5 if accept else -50.)
            if accept:
                st["cur"] = (pos, v)
        log.append((pos, v, st["cur"]))
        script([0.5, u, [U[2], U[0], U[(i + 1) % 3]][c["up"]]])
        return v

    cam.addCustomoLogProbability(logp)
    script([0.5] * 3)
    trace = cam.metropolis(ps, iterations=c["n"], burn=c["n"] - 12, disable_bar=True, print_trace=False)
    for pos, v, cur in log:
        within(rec, pos, "burn-in pattern %d" % c["pat"])
    rows = trace.values.tolist()
    rec.check(11 <= len(rows) <= 12, "%d rows recorded" % len(rows))
    want = [list(cur[0]) + [cur[1]] for pos, v, cur in log[-len(rows):]]
    rec.check(np.allclose(rows, want, rtol=0, atol=1e-12), lambda: "after a burn-in the trace is %s, expected %s" % (rows, want))
    best = max(rows, key=lambda r: r[-1])
    rec.check((cam.tilt_deg, cam.elevation_m) in [tuple(r[:2]) for r in rows if r[2] == best[2]], "the camera does not show the most probable row")
    rec.states += len(log)
    rec.step(len(log))
    rec.trace()
    rec.outcome(tuple(np.round(np.ravel(rows[-1]), 3)))


def run_fit(c, rec):
    mid = [(a + b) / 2 for a, b in zip(LO, HI)]
    for f in (0.7, 1.0, 1.4):
        opt = [m + o * f * (b - a) / 2 for m, o, a, b in zip(mid, c["opt"], LO, HI)]
        for s in range(3):
            n = c["n"]
            cam = make("camera")
            seen = []

            def logp():
                pos = [float(getattr(cam, nm)) for nm in NAMES[:n]]
                seen.append(pos)
                return -sum(((p - o) / w) ** 2 for p, o, w in zip(pos, opt, (10., 5., 4.)))

            cam.addCustomoLogProbability(logp)
            start = [a + f * (b - a) for f, a, b in zip([(0.5, 0.35, 0.55), (0., 1., 0.), (0.975, 0.005, 0.95)][s], LO, HI)]
            ps = [ct.FitParameter(nm, lower=LO[i], upper=HI[i], value=start[i]) for i, nm in enumerate(NAMES[:n])]
            kw = {} if FMETHODS[c["m"]] is None else dict(method=FMETHODS[c["m"]])
            p = cam.fit(ps, **kw)
            what = "fit with %s, optimum %s, start %s" % (FMETHODS[c["m"]], opt[:n], start[:n])
            for pos in seen:
                within(rec, pos, what)
            shown = [getattr(cam, nm) for nm in NAMES[:n]]
            rec.check(np.allclose(shown, p["x"], rtol=0, atol=1e-12), lambda: "%s: the camera shows %s, the result is %s" % (what, shown, p["x"]))
            within(rec, shown, what)
            rec.check(abs(-p["fun"] - cam.getLogProbability()) < 1e-9, lambda: "%s: the log-probability of the result is %s, the fit returned %s" % (what, cam.getLogProbability(), -p["fun"]))
            best = [min(max(o, a), b) for o, a, b in zip(opt, LO, HI)]
            if FMETHODS[c["m"]] in (None, "SLSQP"):
                rec.check(np.allclose(shown, best[:n], atol=0.05), lambda: "%s: found %s, the optimum within the bounds is %s" % (what, shown, best[:n]))
            rec.check(FMETHODS[c["m"]] in ("Powell", "Nelder-Mead") or cam.getLogProbability() >= -sum(((p - o) / w) ** 2 for p, o, w in zip(start[:n], opt, (10., 5., 4.))) - 1e-9, lambda: "%s: the result is worse than the start" % what)
            rec.check(set(NAMES[:n]) <= set(cam.parameters.get_fit_parameters()), "fitted parameters are not marked as fitted")
            rec.states += 1
            rec.trace()
            rec.step(len(seen))
            rec.outcome(tuple(np.round(shown, 1)))


def run_trace(c, rec):
    rows = c["rows"]
    # log-probabilities that are well apart, nearly tied, positive (densities above 1), and without any probability but for the best one
    scales = [lambda n: -2. * n, lambda n: -1234.5 - 1e-7 * n, lambda n: 7.25 - 3. * n, lambda n: -np.inf if n else -3e5]
    for perm, scale in itertools.product(itertools.permutations(range(rows)) if rows < 5 else [tuple(range(rows)), tuple(range(rows))[::-1]], scales):
        data = pd.DataFrame([[50. + i, 10. + 0.5 * i, scale(perm[i])] for i in range(rows)], columns=["tilt_deg", "elevation_m", "probability"])
        if c["cut"]:
            data = pd.concat([pd.DataFrame([[1., 1., -1e9]], columns=data.columns)] * 3 + [data], ignore_index=True)[3:]
        full = data.copy()
        cam = make("camera")
        cam.set_trace(data)
        cam.set_to_mean()
        i = perm.index(0)
        rec.check((cam.tilt_deg, cam.elevation_m) == (50. + i, 10. + 0.5 * i), lambda: "set_to_mean with the trace %s shows %s %s" % (full.values.tolist(), cam.tilt_deg, cam.elevation_m))
        before = cam.imageFromSpace([1., 40., 0.])
        fresh = ct.Camera(projection("rect"), ct.SpatialOrientation(elevation_m=10. + 0.5 * i, tilt_deg=50. + i, roll_deg=1.))
        rec.check(np.allclose(before, fresh.imageFromSpace([1., 40., 0.])), "after set_to_mean the transforms are not those of the shown parameters")
        hit = set()
        for v in range(rows + 2):
            script([((v * 2654435761) % 2 ** 32) / 2 ** 32 if v >= rows else (v + 0.5) / rows])
            # words of the generator are also used as integers
            np.random.set_state(("MT19937", np.array([_untemper(v + k * rows) for k in range(624)], dtype=np.uint32), 0, 0, 0.0)) if v < rows else None
            prob = cam.sample()
            sel = [r for r in full.values.tolist() if (cam.tilt_deg, cam.elevation_m) == (r[0], r[1])]
            rec.check(len(sel) == 1, lambda: "sample(): the camera shows %s %s, which is no row of the trace" % (cam.tilt_deg, cam.elevation_m))
            rec.check(prob == sel[0][2], lambda: "sample() returned %s for the row %s" % (prob, sel[0]))
            fresh = ct.Camera(projection("rect"), ct.SpatialOrientation(elevation_m=sel[0][1], tilt_deg=sel[0][0], roll_deg=1.))
            rec.check(np.allclose(cam.imageFromSpace([1., 40., 0.]), fresh.imageFromSpace([1., 40., 0.])), "after sample() the transforms are not those of the shown parameters")
            hit.add(sel[0][0])
            rec.step()
        # every row can be drawn
        drawn = set()
        for v in range(40 * rows):
            np.random.seed(v)
            cam.sample()
            drawn.add(cam.tilt_deg)
            rec.step()
            if len(drawn) == rows:
                break
        rec.check(drawn == set(full["tilt_deg"]), lambda: "sample() never shows the rows with tilt %s of a trace of %d rows" % (sorted(set(full["tilt_deg"]) - drawn), rows))
        rec.check(data.equals(full), "sampling changes the trace")
        rec.states += rows
        rec.trace()
        rec.outcome(len(hit))


def run_hopeless(c, rec):
    """no starting position has a probability: ValueError, no endless loop"""
    for f in ("fit", "metropolis"):
        cam = make("camera")
        cam.addCustomoLogProbability(lambda: -np.inf)
        try:
            getattr(cam, f)(params("camera", 1), **(dict(iterations=5, disable_bar=True, print_trace=False) if f == "metropolis" else {}))
        except ValueError:
            pass
        else:
            rec.fail("%s without any position with probability does not raise ValueError" % f)
        rec.states += 1
        rec.trace()
    # prior distributions without bounds and a start without probability
    cam = make("camera")
    n = [0]

    def logp():
        n[0] += 1
        return -np.inf if n[0] < 4 else -(cam.tilt_deg - 50) ** 2 / 8
    cam.addCustomoLogProbability(logp)
    np.random.seed(1)
    p = cam.fit([ct.FitParameter("tilt_deg", mean=52., std=3., value=60.)])
    rec.check(abs(cam.tilt_deg - 50) < 0.05 and abs(p["x"][0] - cam.tilt_deg) < 1e-12, "fit with a normal prior")
    rec.step(n[0])


def run_distribution(c, rec):
    """parameters by themselves: density, draws, start values; and start positions drawn from them"""
    from scipy import stats
    lo, hi = ([0., -5., 1e-3, 179.], [1., -4.5, 2e4, 181.])
    kinds = [(dict(lower=a, upper=b), lambda x, a=a, b=b: -math.log(b - a) if a <= x <= b else -np.inf, (a, b)) for a, b in zip(lo, hi)]
    kinds += [(dict(mean=m, std=s), lambda x, m=m, s=s: -0.5 * ((x - m) / s) ** 2 - math.log(s) - 0.5 * math.log(2 * math.pi), None) for m in (0., -7., 300.) for s in (0.01, 1., 50.)]
    kinds += [(dict(distribution=stats.expon(scale=4.)), lambda x: -x / 4 - math.log(4) if x >= 0 else -np.inf, (0., np.inf))]
    for kw, want, box in kinds:
        p = ct.FitParameter("tilt_deg", value=1., **kw)
        rec.check(str(p) == "tilt_deg", "name")
        centre = kw.get("mean", kw.get("lower", 0.))
        for d in (0., 1e-6, 0.3, -0.2, 1.9, -40., 1e5):
            for x in (centre + d, int(centre + d)):
                p.set_value(x)
                rec.check(float(p.value) == x, "value")
                got, exp = float(p.logp()), want(x)
                rec.check(got == exp or abs(got - exp) < 1e-9 * (1 + abs(exp)), lambda: "FitParameter(%s): log-density %s at %s, expected %s" % (kw, got, x, exp))
                rec.step()
        drawn = []
        for u in (1e-9, 0.1, 0.5, 0.9, 1 - 1e-9):
            script([u] * 4)
            x = float(p.random())
            rec.check(np.isfinite(x) and (box is None or box[0] <= x <= box[1]), lambda: "FitParameter(%s) draws %s" % (kw, x))
            drawn.append(x)
            rec.step()
        if "lower" in kw:       # the whole range can be drawn
            rec.check(np.ptp(drawn) > 0.9 * (box[1] - box[0]), lambda: "FitParameter(%s) draws %s for uniform numbers between 1e-9 and 1 - 1e-9" % (kw, drawn))
        rec.states += 1
        rec.trace()
        rec.outcome(str(kw))
    for kw in (dict(), dict(lower=1.), dict(upper=1.), dict(mean=1.), dict(std=1.), dict(lower=1., std=1.)):
        try:
            ct.FitParameter("tilt_deg", value=1., **kw)
            rec.fail("FitParameter(%s) has no distribution but is accepted" % kw)
        except ValueError:
            pass
    # metropolis without any bounds
    from cameratransform.statistic import metropolis
    for seq in itertools.product(range(len(OUT)), repeat=3):
        st = dict(pos=None, prob=None, n=-1)
        rows = []

        def logp(pos):
            st["n"] += 1
            if st["n"] == 0:
                st.update(pos=tuple(pos), prob=-10.)
                script([0.3, 0.8])
                return -10.
            _, d, r = OUT[seq[st["n"] - 1]]
            v = -np.inf if np.isnan(d) else st["prob"] + d
            p = math.exp(min(0., v - st["prob"]))
            r = r if r >= 0 else min(1 - 1e-9, -r * p)
            if p == 1 or r < p:
                st.update(pos=tuple(pos), prob=v)
            rows.append(list(st["pos"]) + [st["prob"]])
            script([r, 0.62, 0.17])
            return v
        got = metropolis(logp, np.array([57., -3.]), step=np.array([3., 0.1]), iterations=3, burn=0, disable_bar=True)
        rec.check(2 <= len(got) <= 3 and np.allclose(np.array(got, float), rows[-len(got):], rtol=0, atol=1e-12), lambda: "without bounds, outcomes %s: the trace is %s, the Metropolis rule gives %s" % ([OUT[o][0] for o in seq], got, rows))
        rec.trace()
        rec.states += 1
        rec.step(3)
    # starting positions without probability are replaced by draws from the distributions
    for u, dead in itertools.product((1e-9, 0.4, 1 - 1e-9), (1, 2, 7)):
        for f in ("fit", "metropolis"):
            obj = make(c["target"])
            ps = params(c["target"], 2)
            seen = []

            def logp():
                pos = [float(getattr(obj, p.__name__)) for p in ps]
                seen.append(pos)
                script([u, 1 - u, u])
                return -np.inf if len(seen) <= dead else -sum((x - m) ** 2 for x, m in zip(pos, (60., 12.)))
            obj.addCustomoLogProbability(logp)
            script([0.5] * 3)
            with np.errstate(all="ignore"):
                obj.fit(ps) if f == "fit" else obj.metropolis(ps, iterations=4, burn=0, disable_bar=True, print_trace=False)
            for pos in seen:
                within(rec, pos, "%s with %d starts without probability" % (f, dead))
            rec.states += 1
            rec.trace()
            rec.step(len(seen))


def run_prior(c, rec):
    """the sampler together with the trace of an earlier run: positions and rows of the earlier trace are accepted together"""
    from cameratransform.statistic import metropolis
    # (also a part of a trace, the rows of which are not numbered from zero)
    prior = pd.DataFrame([[0.1, 7., -1.], [0.2, 8., -2.], [0.3, 9., -3.]], columns=["a", "b", "probability"], index=[[0, 1, 2], [2, 3, 4]][c["first"] % 2])
    keep = prior.copy()
    allowed = [tuple(r[:2]) for r in prior.values.tolist()]
    for rest in itertools.product(range(len(OUT)), range(len(OUT))):
        for picks in itertools.product((0, 1, 2), repeat=2):
            seq = [c["first"]] + list(rest)
            st = dict(pos=None, prob=None, n=-1)
            rows, evals = [], []

            def arm(k, r=None):
                w = ([] if r is None else list(words(r))) + [_untemper(picks[k % 2])] + [x for _ in range(2) for x in words((0.3, 0.62, 0.45)[k % 3])]
                np.random.set_state(("MT19937", np.array((w + list(words(0.5)) * 312)[:624], dtype=np.uint32), 0, 0, 0.0))

            def logp(pos):
                pos = tuple(float(x) for x in pos)
                evals.append(pos)
                st["n"] += 1
                if st["n"] == 0:
                    st.update(pos=pos, prob=-10.)
                    arm(0)
                    return -10.
                _, d, r = OUT[seq[st["n"] - 1]]
                v = -np.inf if np.isnan(d) else st["prob"] + d
                p = math.exp(min(0., v - st["prob"] + mass(st["pos"], lo, hi, step) - mass(pos, lo, hi, step)))
                r = r if r >= 0 else min(1 - 1e-9, -r * p)
                if p == 1 or r < p:
                    st.update(pos=pos, prob=v)
                rows.append(list(st["pos"]) + [st["prob"]])
                arm(st["n"], r)
                return v

            lo, hi, step = [40.], [80.], [6.]
            arm(2)
            got = metropolis(logp, np.array([57.]), step=np.array(step), iterations=3, burn=0, disable_bar=True, ranges=[[40., 80.]], prior_trace=prior)
            what = "with an earlier trace, outcomes %s, rows drawn %s" % ([OUT[o][0] for o in seq], picks)
            for pos in evals:
                rec.check(len(pos) == 3 and pos[1:] in allowed, lambda: "%s: evaluated at %s, which is no row of the earlier trace" % (what, pos))
                within(rec, pos[:1], what)
            rec.check(2 <= len(got) <= 3 and np.allclose(np.array(got, float), rows[-len(got):], rtol=0, atol=1e-12), lambda: "%s: the trace is %s, the Metropolis rule gives %s" % (what, got, rows))
            rec.check(prior.equals(keep), "the earlier trace is changed")
            rec.trace()
            rec.states += 1
            rec.step(3)
            rec.outcome(tuple(np.round(np.ravel(rows), 6)))


def run_fridge(c, rec):
    """the bayesian fridge with a stand-in for the sampling package that visits and returns scripted positions"""
    import sys, types, unittest.mock
    n, target = c["n"], c["target"]
    grid = list(itertools.product((0.1, 0.5, 0.8), repeat=n + c["extra"]))
    for way in ("set_value", "value", "array"):
        for order in (grid, grid[::-1], grid[1:] + grid[:1]):
            obj = make(target)
            ps = params(target, n)
            extra = ct.FitParameter("var", lower=-2., upper=3., value=0.7) if c["extra"] else None
            names = [p.__name__ for p in ps]
            lo, hi = (v[:n] + e * c["extra"] for v, e in ((LO, [-2.]), (HI, [3.])))
            scaled = [[a + f * (b - a) for f, a, b in zip(g, lo, hi)] for g in order]

            def value(pos):
                return -sum((x - a - 0.45 * (b - a) - 0.1 * i) ** 2 for i, (x, a, b) in enumerate(zip(pos, lo, hi)))

            def logp():
                return value([float(getattr(obj, nm)) for nm in names] + ([float(extra.value)] if extra is not None else []))

            obj.addCustomoLogProbability(logp, [extra] if extra is not None else None)
            what = "fridge with %d parameters of a %s, %d additional, %s" % (n, target, c["extra"], way)

            def sample(model, number, **kw):
                rec.check(number == 77 and kw == dict(flag=3), "%s: the arguments for the sampling package are %s %s" % (what, number, kw))
                rec.check([v.__name__ for v in model.variables] == names + ["var"] * c["extra"], "%s: the variables are %s" % (what, [v.__name__ for v in model.variables]))
                model.draw_from_prior()
                for v, a, b in zip(model.variables, lo, hi):
                    rec.check(a <= v.value <= b, "%s: drawn from the prior: %s" % (what, v.value))
                got = value([float(v.value) for v in model.variables])
                rec.check(abs(model.logp - got) < 1e-9, lambda: "%s: the log-probability of a position drawn from the prior is %s, expected %s" % (what, model.logp, got))
                for pos in scaled:
                    for v, x in zip(model.variables, pos):
                        if way == "set_value":
                            v.set_value(x)
                        else:
                            v.value = x if way == "value" else np.array(x)
                    rec.check(abs(model.logp - value(pos)) < 1e-9, lambda: "%s: the log-probability of %s is %s, expected %s" % (what, pos, model.logp, value(pos)))
                    rec.step()
                return {v.__name__: np.array([p[i] for p in scaled]) for i, v in enumerate(model.variables)}, 0.

            stub = types.ModuleType("bayesianfridge")
            stub.sample = sample
            with unittest.mock.patch.dict(sys.modules, {"bayesianfridge": stub, "mock": unittest.mock}):
                import io, contextlib
                with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                    trace = obj.fridge(ps, iterations=77, flag=3)
            rec.check(list(trace.columns) == names + ["var"] * c["extra"] + ["probability"], "%s: columns %s" % (what, list(trace.columns)))
            want = [p + [value(p)] for p in scaled]
            rec.check(trace.shape == np.shape(want) and np.allclose(trace.values.astype(float), want, rtol=0, atol=1e-9), lambda: "%s: the trace is %s, expected %s" % (what, trace.values.tolist(), want))
            best = max(want, key=lambda r: r[-1])
            shown = [float(getattr(obj, nm)) for nm in names]
            rec.check(any(np.allclose(shown, r[:n]) and r[-1] > best[-1] - 1e-9 for r in want), lambda: "%s: the camera shows %s, the most probable row is %s" % (what, shown, best))
            rec.trace()
            rec.states += len(want)
    rec.outcome(("fridge", n, target))


# camera, what happens, the additional parameters it brings along
XOPS = [("A", "height", (0,)), ("A", "height", (1,)), ("A", "length", (1,)), ("A", "custom", (0, 2)), ("A", "fixed", ()), ("A", "plot", ()), ("A", "clear", None),
        ("B", "length", (0,)), ("B", "custom", (2,)), ("B", "clear", None)]


def run_extras(c, rec):
    """histories of giving and clearing information with additional parameters, for two cameras: each samples exactly its own parameters"""
    feet, head = np.array([[30., 40.], [40., 44.]]), np.array([[30., 32.], [40., 38.]])
    for rest in itertools.product(range(len(XOPS)), repeat=c["depth"] - 1):
        seq = [XOPS[i] for i in (c["first"],) + rest]
        what = "after %s" % ([s[:2] + (s[2] or (),) for s in seq],)
        var = [ct.FitParameter("v%d" % i, lower=0.5, upper=3 + i, value=1.5, step=0.2) for i in range(3)]
        cams, own = {}, {"A": [], "B": []}
        for k in "AB":
            cams[k] = ct.Camera(projection("rect", fx=80., fy=80., cx=32., cy=24., w=64, h=48), ct.SpatialOrientation(elevation_m=10., tilt_deg=60.))
        for who, op, ps in seq:
            cam = cams[who]
            v = [var[i] for i in ps or ()]
            if op == "height":
                cam.addObjectHeightInformation(feet, head, 2., v[0])
            elif op == "length":
                cam.addObjectLengthInformation(feet, head, 4., v[0])
            elif op == "custom":
                cam.addCustomoLogProbability(lambda v=v: -sum((x.value - 1.) ** 2 for x in v), v)
            elif op == "fixed":
                cam.addObjectHeightInformation(feet, head, 2., 0.5)
            elif op == "plot":
                cam.addObjectHeightInformation(feet, head, 2., var[2], only_plot=True)
            else:
                cam.clearLogProbability()
                own[who] = []
            for i in ps or ():
                if i not in own[who]:
                    own[who].append(i)
            rec.step()
        for k in "AB":
            script([0.3, 0.6, 0.2, 0.7, 0.4])
            cam = cams[k]
            trace = cam.metropolis([ct.FitParameter("tilt_deg", lower=40, upper=80, value=60., step=1.)], iterations=4, burn=0, disable_bar=True, print_trace=False)
            cols = list(trace.columns)
            rec.check(cols[0] == "tilt_deg" and cols[-1] == "probability" and sorted(cols[1:-1]) == sorted("v%d" % i for i in own[k]), lambda: "%s: camera %s samples %s, its additional parameters are %s" % (what, k, cols, own[k]))
            for row in trace.values.tolist():
                cam.parameters.set_fit_parameters(["tilt_deg"], row[:1])
                for n, x in zip(cols[1:-1], row[1:-1]):
                    p = var[int(n[1])]
                    rec.check(p.parents["lower"] - 1e-9 <= x <= p.parents["upper"] + 1e-9, lambda: "%s: %s is %s" % (what, n, x))
                    p.set_value(x)
                p = cam.getLogProbability()
                rec.check(abs(p - row[-1]) < 1e-9 * (1 + abs(p)), lambda: "%s: the row %s of camera %s has the log-probability %s" % (what, row, k, p))
            rec.step(4)
        rec.state(repr(own))
        rec.trace()


def run_case(c, rec):
    b = c.get("box", 0)
    LO[:], HI[:], START[:], EXTRA[:] = map(list, BOX[b] + (EXTRAS[b],))
    globals()["run_" + c["kind"]](c, rec)
