"""C23: every step of the sampler leaves the posterior invariant: detailed balance of all pairs of positions, measured on the real sampler."""
import itertools, math
import numpy as np
import cameratransform as ct
from mc.checks.c18 import script, make, NAMES, LO, HI, init_worker

ASSUMPTIONS = ["random numbers come from numpy's global generator, one uniform number per parameter for a proposal and one for the acceptance; its state is replaced before every draw",
               "proposal densities are measured as derivatives of the proposal with respect to the drawn number", "the limit theorem for Markov chains (an invariant posterior and an unchanging proposal imply convergence) is not re-proved"]
XS = [0.0005, 0.03, 0.3, 0.5, 0.9, 0.999]
US = [0.02, 0.35, 0.7, 0.97]
DL = [0., 0.5, -0.5, -2.5, 1.5]
STEPS = [1., 6., 40.]
BOUNDS = {"quick": "1 parameter: %d start positions x %d draws x %d step sizes x %d differences of the log-probability, bounded and unbounded, also for an additional parameter and a group; 2 parameters: 9 x 9 positions; after burn-ins that change the step size by 10, 0.1, 0.5, 0.9, 2 and 1.1; proposals 2 and 260 steps after the burn-in" % (len(XS), len(US), len(STEPS), len(DL)),
          "thorough": "twice as many positions and draws, 2 and 3 parameters with 4 draws each"}
CHUNK = 1


def cases(tier):
    t = tier == "thorough"
    xs = XS + [0.01, 0.1, 0.7, 0.97] if t else XS
    for x in xs:
        for s in STEPS:
            for target in ("camera", "group", "extra", "free"):
                if target in ("camera", "free") or s == 6. or t:
                    yield dict(kind="one", x=x, step=s, target=target, us=US + [0.1, 0.5, 0.85] if t else US)
    for x in itertools.product((0.002, 0.5, 0.97), repeat=2):
        yield dict(kind="many", x=list(x), target="camera", us=(0.05, 0.5, 0.9))
        yield dict(kind="many", x=list(x), target="extra", us=(0.05, 0.9) if not t else (0.05, 0.5, 0.9))
    if t:
        for x in itertools.product((0.002, 0.5, 0.97), repeat=3):
            yield dict(kind="many", x=list(x), target="camera", us=(0.05, 0.5, 0.9))
    for pat in range(6):
        for x in (0.01, 0.5, 0.98) if t else (0.01, 0.9):
            for u in (0.1, 0.5, 0.8) if t else (0.1, 0.8):
                yield dict(kind="burn", pat=pat, x=x, u=u)
    for pat in range(6):
        for x in (0.02, 0.6):
            yield dict(kind="later", pat=pat, x=x)


class Chain:
    """the sampler on a camera or group with n open parameters and scripted random numbers and log-probabilities"""

    def __init__(self, target, steps):
        self.target, self.steps = target, steps
        self.n = n = len(steps)
        self.lo, self.hi = ((LO[:n], HI[:n]) if target != "extra" else (LO[:n - 1] + [-2.], HI[:n - 1] + [3.]))
        self.runs = 0
        self._stay = {}

    def at(self, f):
        return [a + x * (b - a) for x, a, b in zip(f, self.lo, self.hi)]

    def run(self, start, plan, burn=0):
        """plan: for every proposal (numbers of the draw, its log-probability, number of the acceptance); returns proposals and trace"""
        obj = make("group" if self.target == "group" else "camera")
        names = [("C0_" if self.target == "group" else "") + x for x in NAMES[:self.n]]
        ps = []
        for i, x in enumerate(names):
            if self.target == "free":
                ps.append(ct.FitParameter(x, mean=55., std=20., value=start[i], step=self.steps[i]))
            else:
                nm = "extra" if self.target == "extra" and i == self.n - 1 else x
                ps.append(ct.FitParameter(nm, lower=self.lo[i], upper=self.hi[i], value=start[i], step=self.steps[i]))
        extra = ps.pop() if self.target == "extra" else None
        props = []
        state = dict(k=-1, first=None)

        def logp():
            pos = [float(getattr(obj, p.__name__)) for p in ps] + ([float(extra.value)] if extra is not None else [])
            if state["first"] is None:
                state["first"] = pos
            # the sampler may evaluate the start several times
            if state["k"] < 0 and pos == state["first"]:
                script(plan[0][0])
                return 0.
            k = state["k"] = state["k"] + 1
            props.append(pos)
            script([plan[k][2]] + list(plan[k + 1][0] if k + 1 < len(plan) else plan[0][0]))
            return plan[k][1]

        obj.addCustomoLogProbability(logp, [extra] if extra is not None else None)
        trace = obj.metropolis(ps, iterations=len(plan), burn=burn, disable_bar=True, print_trace=False)
        self.runs += 1
        return props, trace.values.astype(float)

    # -- one step from a position, optionally after a burn-in that ends at this position -------------------------------
    def pre(self, x, pat):
        """what comes before the step: one rejected proposal or a burn-in that stays at x"""
        out = [([0.4137] * self.n, -1e3, 0.5)]
        if pat is not None:
            if tuple(x) not in self._stay:
                self._stay[tuple(x)] = self.draw(x, x)
            for i in range(1, 202):
                # 0: all accepted (step x 10), 1: none (x 0.1), 2: few (x 0.5), 3: some (x 0.9), 4: many (x 2), 5: most (x 1.1); accepted steps stay at x
                acc = i < 199 and [True, False, i % 50 == 7, i % 8 == 3, i % 6 != 0, i % 5 < 3][pat]
                out.append((self._stay[tuple(x)], 0., 1e-9) if acc else out[0])
        return out

    def propose(self, x, u, pat=None):
        pre = self.pre(x, pat)
        props, _ = self.run(x, pre + [(u, -1e3, 0.5), (u, -1e3, 0.5)], burn=len(pre))
        return np.array(props[len(pre)])

    def draw(self, x, y, pat=None):
        """the numbers whose proposal from x is y (the proposal grows with each number), nan if there is none"""
        lo, hi = np.full(self.n, 1e-12), np.full(self.n, 1 - 1e-12)
        for _ in range(46):
            mid = (lo + hi) / 2
            low = self.propose(x, mid, pat) < y
            lo, hi = np.where(low, mid, lo), np.where(low, hi, mid)
        return (lo + hi) / 2

    def density(self, x, u, pat=None):
        """log density of the proposal drawn with u"""
        u = np.asarray(u)
        h = 3e-4 * np.minimum(u, 1 - u)
        d = self.propose(x, u + h, pat) - self.propose(x, u - h, pat)
        return float(np.sum(np.log(2 * h / d)))

    def accept(self, x, u, dl, pat=None):
        """the probability to accept the proposal drawn with u"""
        pre = self.pre(x, pat)
        y = self.propose(x, u, pat)

        def moved(r):
            _, rows = self.run(x, pre + [(u, dl, r), (u, -1e9, 0.5)], burn=len(pre))
            return np.abs(rows[-1][:self.n] - y).max() < 1e-9 and abs(rows[-1][-1] - dl) < 1e-12
        if moved(1 - 1e-9):
            return 1.
        lo, hi = 0., 1.
        for _ in range(22):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if moved(mid) else (lo, mid)
        return (lo + hi) / 2


def balance(rec, ch, x, u, dls, pat, what):
    y = ch.propose(x, u, pat)
    for v, a, b in zip(y, ch.lo, ch.hi):
        rec.check(ch.target == "free" or a - 1e-9 <= v <= b + 1e-9, lambda: "%s: the proposal %s is outside of the bounds" % (what, y))
    back = ch.draw(y, x, pat)
    rec.check(np.all((back > 1e-9) & (back < 1 - 1e-9)), lambda: "%s: from %s, proposed from %s, the way back is never proposed" % (what, y, x))
    q1, q2 = ch.density(x, u, pat), ch.density(y, back, pat)
    for dl in dls:
        a1, a2 = ch.accept(x, u, dl, pat), ch.accept(y, back, -dl, pat)
        rec.check(a1 > 0 and a2 > 0, lambda: "%s: %s and %s never follow each other (difference of the log-probability %s)" % (what, x, y, dl))
        flow = math.log(a1) + q1 - (dl + math.log(a2) + q2)
        rec.check(abs(flow) < 4e-3, lambda: "%s: the flow from %s to %s is exp(%.4f) times the flow back (log-probability higher by %s; densities of the proposals exp(%.4f), exp(%.4f), acceptance %.5f, %.5f): the posterior is not preserved" % (what, x, y.tolist(), flow, dl, q1, q2, a1, a2))
        rec.outcome((round(a1, 3), round(a2, 3)))
        rec.states += 1
        rec.trace()
    rec.step(ch.runs)
    ch.runs = 0


def run_case(c, rec):
    if c["kind"] == "one":
        ch = Chain(c["target"], [c["step"]])
        x = ch.at([c["x"]])
        for i, u in enumerate(c["us"]):
            balance(rec, ch, x, [u], [DL[(i + k) % len(DL)] for k in (0, 2)], None, "one parameter of a %s, step %s" % (c["target"], c["step"]))
    elif c["kind"] == "many":
        n = len(c["x"])
        ch = Chain(c["target"], [8., 5., 30.][:n])
        x = ch.at(c["x"])
        for i, u in enumerate(itertools.product(c["us"], repeat=n)):
            balance(rec, ch, x, list(u), [DL[i % len(DL)]], None, "%d parameters of a %s" % (n, c["target"]))
    elif c["kind"] == "burn":
        # single steps after a burn-in: the acceptance for the densities of the changed step size
        ch = Chain("camera", [6.])
        x = ch.at([c["x"]])
        y = ch.propose(x, [c["u"]], c["pat"])
        fwd = ch.density(x, [c["u"]], c["pat"])
        # the way back, searched near the result of the symmetric kernel
        s = spread(ch, x, c["pat"])
        back = guess(ch, y, x, s)
        back = refine(ch, y.tolist(), x, back, c["pat"])
        bwd = ch.density(y.tolist(), back, c["pat"])
        for dl in (0., -0.6):
            a1, a2 = ch.accept(x, [c["u"]], dl, c["pat"]), ch.accept(y.tolist(), back, -dl, c["pat"])
            flow = math.log(max(a1, 1e-99)) + fwd - (dl + math.log(max(a2, 1e-99)) + bwd)
            rec.check(abs(flow) < 1e-2, lambda: "after a burn-in (pattern %d): the flow from %s to %s is exp(%.4f) times the flow back (log-probability higher by %s)" % (c["pat"], x, y, flow, dl))
            rec.outcome((round(a1, 3), round(a2, 3)))
            rec.states += 1
            rec.trace()
        rec.step(ch.runs)
    else:
        ch = Chain("camera", [6.])
        x = ch.at([c["x"]])
        pre = ch.pre(x, c["pat"])
        stay = ch.draw(x, x)
        for u in (0.1, 0.5, 0.8):
            first = ch.propose(x, [u], c["pat"])
            # the number that stays at x with the current step size
            s = spread(ch, x, c["pat"])
            keep = refine(ch, x, x, guess(ch, x, x, s), c["pat"])
            for accepted in (True, False):
                more = [(keep, 0., 1e-9) if accepted else ([0.4], -1e3, 0.5)] * 260
                props, rows = ch.run(x, pre + more + [([u], -1e3, 0.5)] * 2, burn=len(pre))
                rec.check(abs(props[len(pre) + 260][0] - first[0]) < 1e-3 * max(s, 1e-3), lambda: "pattern %d: right after the burn-in the number %s proposes %s, after 260 more steps %s: the proposals keep changing" % (c["pat"], u, first, props[len(pre) + 260]))
                rec.states += 1
                rec.trace()
        rec.step(ch.runs)


def spread(ch, x, pat):
    """the step size used after the burn-in, from two draws (only used as a starting guess for searches)"""
    a, b = ch.propose(x, [0.49], pat), ch.propose(x, [0.51], pat)
    return float(abs(b - a)[0]) / 0.05


def guess(ch, x, y, s):
    phi = lambda z: 0.5 * math.erfc(-z / math.sqrt(2))
    a, b = phi((ch.lo[0] - x[0]) / s), phi((ch.hi[0] - x[0]) / s)
    return (phi((y[0] - x[0]) / s) - a) / (b - a)


def refine(ch, x, y, u, pat):
    """secant search for the number that proposes y from x"""
    u0, u1 = min(max(u, 1e-9), 1 - 1e-9), min(max(u * 1.01 + 1e-6, 1e-9), 1 - 1e-9)
    f0 = ch.propose(x, [u0], pat)[0] - y[0]
    for _ in range(25):
        f1 = ch.propose(x, [u1], pat)[0] - y[0]
        if abs(f1) < 1e-10 or f1 == f0:
            break
        u0, u1, f0 = u1, min(max(u1 - f1 * (u1 - u0) / (f1 - f0), u1 / 5), 1 - (1 - u1) / 5), f1
    return [u1]
