"""Bounded exhaustive explorer: runs every case of a check on the code in /repo, in parallel, in a fixed order.

A check module (mc/checks/cNN.py) provides
  cases(tier)        -> list of JSON-able cases, simplest first: the complete bounded space of this tier
  run_case(case,rec) -> executes the case on the real code and compares every step with the reference model
  BOUNDS[tier], ASSUMPTIONS
A case either returns (property held on everything it explored) or raises (Violation or any exception that the
code under test lets escape).  There is no randomness: VERIF_SEED is recorded only.
"""
import hashlib, importlib, json, multiprocessing as mp, multiprocessing.connection, os, signal, sys, time, traceback, warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
CASE_TIMEOUT = int(os.environ.get("VERIF_CASE_TIMEOUT", "400"))


class Violation(Exception):
    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


def _digest(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


class Rec:
    """What one case covered."""

    def __init__(self, prop, known):
        self.prop = prop
        self.known = known
        self.states = 0          # distinct model states / input points, distinct by construction within the case
        self.state_set = set()   # distinct states that have to be deduplicated across cases
        self.transitions = 0     # steps executed on the real code
        self.traces = 0          # complete model histories replayed on the real code and compared
        self.outcomes = set()
        self.samples = []
        self.known_seen = {}

    def state(self, key):
        d = _digest(key)
        new = d not in self.state_set
        self.state_set.add(d)
        return new

    def outcome(self, x):
        if len(self.outcomes) < 4000:
            self.outcomes.add(_digest(x))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(x)

    def fail(self, msg, sig=None):
        """report a violation; a violation with a listed signature is a known finding and exploration goes on"""
        if sig is not None and (self.prop, sig) in self.known:
            self.known_seen[sig] = self.known[(self.prop, sig)]
            return
        raise Violation(msg, sig)

    def check(self, ok, msg, sig=None):
        if not ok:
            self.fail(msg() if callable(msg) else msg, sig)


def load_known():
    known = {}
    try:
        with open(KNOWN_FILE) as fp:
            for line in fp:
                line = line.strip()
                if line.startswith("known: "):
                    parts = line.split(" ", 3)
                    prop = parts[1].split("=", 1)[1]
                    sig = parts[2].split("=", 1)[1]
                    known[(prop, sig)] = parts[3]
    except FileNotFoundError:
        pass
    return known


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def _run_one(mod, prop, known, case):
    rec = Rec(prop, known)
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run_case(case, rec)
    except Violation as e:
        err = dict(kind="violation", message=str(e))
    except CaseTimeout:
        err = dict(kind="hang", message="the case did not terminate within %d s" % CASE_TIMEOUT)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # an exception escaping from the code under test
        err = dict(kind="exception", message="%s: %s" % (type(e).__name__, e), traceback=traceback.format_exc()[-3000:])
    finally:
        signal.alarm(0)
    return rec, err


_MOD = None
_PROP = None
_KNOWN = None


def _init(modname, prop, known):
    global _MOD, _PROP, _KNOWN
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    _MOD = importlib.import_module(modname)
    _PROP, _KNOWN = prop, known
    import numpy as np
    np.seterr(all="ignore")
    if hasattr(_MOD, "init_worker"):
        _MOD.init_worker()


def _chunk(job):
    start, cases = job
    total = Rec(_PROP, _KNOWN)
    for i, case in enumerate(cases):
        rec, err = _run_one(_MOD, _PROP, _KNOWN, case)
        total.states += rec.states
        total.state_set |= rec.state_set
        total.transitions += rec.transitions
        total.traces += rec.traces
        total.outcomes |= rec.outcomes
        total.known_seen.update(rec.known_seen)
        if len(total.samples) < 2:
            total.samples += rec.samples or [case]
        if err is not None:
            return total, dict(err, index=start + i, case=case, chunk_prefix=cases[:i])
    return total, None


def _serve(conn, modname, prop, known):
    """a worker: answers jobs until the explorer kills it"""
    _init(modname, prop, known)
    while True:
        conn.send(_chunk(conn.recv()))


class Workers:
    """Runs jobs on forked processes, results in order. A worker that dies (a crash of the interpreter in the code under
    test, or no memory) is replaced and its job repeated once; workers are killed at the end, nothing waits for them."""

    def __init__(self, n, *args):
        self.ctx, self.args = mp.get_context("fork"), args
        self.slots = [self.spawn() for _ in range(n)]

    def spawn(self):
        here, there = self.ctx.Pipe()
        p = self.ctx.Process(target=_serve, args=(there,) + self.args, daemon=True)
        p.start()
        there.close()
        return dict(proc=p, conn=here, job=None, since=None)

    def run(self, jobs):
        """yields (number, result), in order; the result is None if there was no answer"""
        todo, again, results, nxt = iter(range(len(jobs))), [], {}, 0
        tries = {}
        while nxt < len(jobs):
            for s in self.slots:
                if s["job"] is None:
                    k = again.pop() if again else next(todo, None)
                    if k is not None:
                        s["job"], s["since"] = k, time.time()
                        try:
                            s["conn"].send(jobs[k])
                        except OSError:
                            pass            # dead: noticed below
            ready = mp.connection.wait([s["conn"] for s in self.slots if s["job"] is not None], timeout=5)
            for i, s in enumerate(self.slots):
                k = s["job"]
                if k is None:
                    continue
                if s["conn"] in ready:
                    try:
                        results[k] = s["conn"].recv()
                        s["job"] = None
                        continue
                    except (EOFError, OSError):
                        tries[k] = tries.get(k, 0) + 1
                        if tries[k] < 2:
                            again.append(k)
                        else:
                            results[k] = "the process running the code died"
                elif time.time() - s["since"] > CASE_TIMEOUT * len(jobs[k][1]) + 60:
                    results[k] = "no answer from the code under test"
                else:
                    continue
                s["proc"].kill()
                self.slots[i] = self.spawn()
            while nxt in results:
                yield nxt, results.pop(nxt)
                nxt += 1

    def kill(self):
        for s in self.slots:
            s["proc"].kill()
        for s in self.slots:
            s["proc"].join(5)


def main(prop, tier):
    t0 = time.time()
    modname = "mc.checks." + prop.lower()
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    known = load_known()
    mod = importlib.import_module(modname)
    import cameratransform
    src = os.path.realpath(os.path.dirname(cameratransform.__file__))
    assert src == os.path.realpath(os.environ.get("VERIF_REPO", "/repo") + "/cameratransform"), src
    cases = list(mod.cases(tier))
    assert cases, "empty case space"
    procs = int(os.environ.get("VERIF_PROCS", "8"))
    size = getattr(mod, "CHUNK", None) or max(1, min(200, len(cases) // (procs * 8)))
    jobs = [(i, cases[i:i + size]) for i in range(0, len(cases), size)]
    total = Rec(prop, known)
    bad = None
    done = 0
    workers = Workers(min(procs, len(jobs)), modname, prop, known)
    try:
        for k, res in workers.run(jobs):
            if isinstance(res, str):
                bad = dict(kind="hang", message=res, index=jobs[k][0], case=jobs[k][1][0], chunk_prefix=[])
                break
            rec, err = res
            total.states += rec.states
            total.state_set |= rec.state_set
            total.transitions += rec.transitions
            total.traces += rec.traces
            total.outcomes |= rec.outcomes
            total.known_seen.update(rec.known_seen)
            if len(total.samples) < 4:
                total.samples += rec.samples[:1]
            if err is not None:
                bad = err
                break
            done += len(jobs[k][1])
    finally:
        workers.kill()
    wall = time.time() - t0
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    coverage = dict(states=total.states + len(total.state_set), transitions=total.transitions,
                    traces_validated_against_impl=total.traces, samples=total.samples[:4],
                    exhaustive=bad is None, cases_in_bound=len(cases), cases_completed=done,
                    distinct_outcomes=len(total.outcomes), bounds=mod.BOUNDS[tier],
                    validation="every enumerated history/input is executed on the real code imported from /repo; the "
                               "reference model is compared with the implementation at every step")
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=coverage,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=0 if bad is None else 1)
    for sig, what in sorted(total.known_seen.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    rc = 0
    if bad is not None:
        replay = os.path.join(evdir, "replay", "%s.json" % prop)
        with open(replay, "w") as fp:
            json.dump(dict(property=prop, tier=tier, module=modname, case=bad["case"], kind=bad["kind"],
                           message=bad["message"], traceback=bad.get("traceback"), chunk_prefix=bad["chunk_prefix"],
                           how="cd /verif && ./replay.sh %s" % replay), fp, indent=1, default=str)
        ev["coverage"]["violation"] = dict(case=bad["case"], message=bad["message"][:2000])
        print("violated: %s" % bad["message"][:1500])
        print("case: %s" % json.dumps(bad["case"], default=str)[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        rc = 1
    with open(os.path.join(evdir, "%s.json" % prop), "w") as fp:
        json.dump(ev, fp, indent=1, default=str)
    print("%s %s: cases %d/%d states %d transitions %d traces %d outcomes %d wall %.1fs -> %s" % (
        prop, tier, done, len(cases), coverage["states"], coverage["transitions"],
        coverage["traces_validated_against_impl"], coverage["distinct_outcomes"], wall, "ok" if rc == 0 else "VIOLATED"))
    return rc


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        with open(sys.argv[2]) as fp:
            r = json.load(fp)
        mod = importlib.import_module(r["module"])
        if hasattr(mod, "init_worker"):
            mod.init_worker()
        for with_prefix in (False, True):
            for case in (r["chunk_prefix"] if with_prefix else []) + [r["case"]]:
                rec, err = _run_one(mod, r["property"], load_known(), case)
            if err:
                print("reproduced%s: %s" % (" (after the preceding cases)" if with_prefix else "", err["message"]))
                print(err.get("traceback") or "")
                print(json.dumps(r["case"], default=str))
                sys.exit(1)
        print("not reproduced")
        sys.exit(0)
    sys.exit(main(sys.argv[1], sys.argv[2]))
