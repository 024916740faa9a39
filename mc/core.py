"""Exploration core: counters, comparison against the implementation, watchdog, replay, known findings, evidence.

A *check* is a module mc/cNN.py with a function explore(ck).  It enumerates model states, and for every configuration
calls ck.eq(key, thunk, want): the thunk replays the configuration on the real code, want is the model's value.
The key names the configuration completely (it is what a replay file stores).
"""
import os, sys, json, time, math, signal, hashlib, fnmatch, argparse, importlib, traceback, resource, warnings, io
import contextlib
import multiprocessing as mp
import multiprocessing.connection

CALL_CPU_S = 20          # CPU seconds one replayed call may take before it counts as a hang
MAX_VIOL = 12            # stop exploring after this many unlisted violations
MEM = 6 << 30


class Hang(BaseException):
    pass


class Stop(Exception):
    pass


def _on_alarm(signum, frame):
    raise Hang()


class Ck:
    def __init__(self, pid, tier, seed, only=None, known=()):
        self.pid, self.tier, self.seed, self.only, self.known = pid, tier, seed, only, list(known)
        self.thorough = tier == "thorough"
        self.states = set()          # distinct model states visited (hashes)
        self.transitions = 0         # model transitions enumerated
        self.traces = 0              # configurations replayed on the implementation that agreed with the model
        self.compared = 0            # configurations replayed
        self.outcomes = set()        # distinct model outcomes
        self.violations, self.findings, self.samples = [], {}, []
        self.sites = {}              # per call site counts
        self.notes = {}

    # -- model bookkeeping
    def visit(self, *key):
        self.states.add(hash(key))

    def step(self, n=1):
        self.transitions += n

    # -- comparison
    def call(self, thunk):
        """Run a replay under the watchdog: ('ok', value) or ('exc', text)."""
        signal.signal(signal.SIGPROF, _on_alarm)
        signal.setitimer(signal.ITIMER_PROF, CALL_CPU_S)
        try:
            return "ok", thunk()
        except Hang:
            return "exc", f"no answer within {CALL_CPU_S} s of CPU time"
        except (Exception, SystemExit) as e:
            return "exc", f"{type(e).__name__}: {e}"[:300]
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)

    def skip(self, key):
        return self.only is not None and key != self.only

    def eq(self, site, args, thunk, want, rel=1e-9, abs_=1e-9):
        """The implementation's answer for (site, args) must equal the model's value."""
        key = fmt_key(site, args)
        if self.only is not None and key != self.only:
            return True
        self.compared += 1
        self.sites[site] = self.sites.get(site, 0) + 1
        kind, got = self.call(thunk)
        w = want
        if kind == "ok" and same(got, w, rel, abs_):
            self.traces += 1
            if isinstance(w, (int, float)):
                self.outcomes.add(round(float(w), 7))
            n = self.sites[site]
            if n in (3, 40) and len(self.samples) < 40:
                self.samples.append(f"{key} -> {short(got)} (model {short(w)})")
            return True
        self.bad(key, got, w)
        return False

    def ok(self, site, args, thunk):
        """The thunk, replayed on the implementation, must return True."""
        return self.eq(site, args, lambda: bool(thunk()), True)

    def bad(self, key, got, want):
        for k in self.known:
            if k["property"] == self.pid and any(fnmatch.fnmatchcase(key, pat) for pat in k["match"]):
                self.findings.setdefault(k["what"], 0)
                self.findings[k["what"]] += 1
                return
        self.violations.append(dict(key=key, got=short(got), want=short(want)))
        if len(self.violations) >= MAX_VIOL or ("no answer within" in str(got) and MAX_VIOL < 10 ** 6):
            raise Stop()

    def crash(self, item, e):
        """The implementation raised where the harness only prepares its objects: no answer there is right."""
        try:
            at = traceback.extract_tb(e.__traceback__)[-1]
            self.bad(fmt_key("crash", (short(item),)), f"{type(e).__name__}: {e} in {os.path.basename(at.filename)}:{at.name}", "no exception")
        except Stop:
            return True
        return False

    # -- sharding over processes
    def each(self, items, fn, procs=None):
        items = list(items)
        procs = procs or min(8, os.cpu_count() or 1, len(items))
        if procs <= 1 or len(items) <= 1 or self.only is not None:
            for it in items:
                fn(self, it)
            return
        global _FN, _CK, _ITEMS
        _FN, _CK, _ITEMS = fn, self, items
        ctx = mp.get_context("fork")
        turn, ends, team, errors = ctx.Value("i", 0), {}, [], []
        try:
            for _ in range(procs):
                mine, theirs = ctx.Pipe(False)
                w = ctx.Process(target=_serve, args=(turn, len(items), theirs), daemon=True)
                w.start()
                theirs.close()
                team.append(w)
                ends[mine] = w
            while ends:
                for end in mp.connection.wait(list(ends)):
                    try:
                        r = end.recv()
                    except EOFError:
                        r = dict(error="a worker process was ended")
                    if r is None:          # nothing left to do
                        del ends[end]
                        continue
                    if "states" in r:
                        self.merge(r)
                    if r.get("error"):
                        errors.append(r["error"])
                        if "states" not in r:
                            raise RuntimeError(r["error"])
                        continue
                    if len(self.violations) >= MAX_VIOL or r["stopped"]:
                        raise Stop()
            if errors:
                raise RuntimeError(errors[0])
        finally:
            for w in team:
                w.kill()
            for w in team:
                w.join()

    def merge(self, r):
        self.states |= r["states"]
        self.transitions += r["transitions"]
        self.traces += r["traces"]
        self.compared += r["compared"]
        self.outcomes |= r["outcomes"]
        self.violations += r["violations"]
        for k, v in r["findings"].items():
            self.findings[k] = self.findings.get(k, 0) + v
        for k, v in r["sites"].items():
            self.sites[k] = self.sites.get(k, 0) + v
        for s in r["samples"]:
            if len(self.samples) < 40:
                self.samples.append(s)


_FN = _CK = _ITEMS = None


def _serve(turn, n, out):
    while True:
        with turn.get_lock():
            k = turn.value
            turn.value += 1
        if k >= n:
            out.send(None)
            return
        out.send(_work(k))


def _work(item):
    c = Ck(_CK.pid, _CK.tier, _CK.seed, _CK.only, _CK.known)
    stopped, error = False, None
    try:
        with quiet():
            _FN(c, _ITEMS[item])
    except Stop:
        stopped = True
    except Exception as e:
        if blames_library(e):
            stopped = c.crash(_ITEMS[item], e)
        else:
            error = traceback.format_exc()
    return dict(states=c.states, transitions=c.transitions, traces=c.traces, compared=c.compared, outcomes=c.outcomes,
                violations=c.violations, findings=c.findings, sites=c.sites, samples=c.samples, stopped=stopped,
                error=error)


def blames_library(e):
    """did the exception leave the package under test (rather than arise in the harness)?"""
    files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
    mine = max((k for k, f in enumerate(files) if os.sep + "mc" + os.sep in f), default=-1)
    return any("actuarialmath" in f for f in files[mine + 1:])


def fmt_key(site, args):
    if isinstance(args, dict):
        args = ",".join(f"{k}={fmt(v)}" for k, v in args.items())
    elif isinstance(args, (tuple, list)):
        args = ",".join(fmt(v) for v in args)
    return f"{site}({args})"


def fmt(v):
    return repr(round(v, 10)) if isinstance(v, float) else str(v)


def short(v):
    try:
        s = repr(v)
    except Exception as e:
        s = f"<unprintable {type(v).__name__}>"
    return s[:300]


def same(got, want, rel, abs_):
    if want is None or isinstance(want, (bool, str)):
        if isinstance(want, bool):
            try:
                return bool(got) == want
            except Exception:
                return False
        return got is None if want is None else got == want
    if isinstance(want, dict):
        return isinstance(got, dict) and set(got) == set(want) and all(same(got[k], want[k], rel, abs_) for k in want)
    if isinstance(want, (list, tuple)):
        try:
            got = list(got)
        except TypeError:
            return False
        return len(got) == len(want) and all(same(g, w, rel, abs_) for g, w in zip(got, want))
    if got is None:
        return False
    try:
        g = float(got)
    except (TypeError, ValueError):
        return False
    if isinstance(got, complex):
        return False
    if math.isnan(want):
        return math.isnan(g)
    if math.isinf(want) or math.isinf(g):
        return g == want
    return abs(g - want) <= max(abs_, rel * max(abs(g), abs(want)))


def plain(v):
    """an answer as nested lists and numbers"""
    if type(v).__name__ == "DataFrame":
        return [list(map(str, v.columns))] + [plain(list(r)) for r in v.to_numpy()] + [list(map(str, v.index))]
    if isinstance(v, dict):
        return {str(k): plain(w) for k, w in v.items()}
    if isinstance(v, (list, tuple)) or type(v).__name__ == "ndarray":
        return [plain(w) for w in v]
    if isinstance(v, complex):
        return str(v)
    if v is None or isinstance(v, (bool, str)):
        return v
    try:
        return float(v)
    except (TypeError, ValueError):
        return str(v)


def close(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(close, a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(close(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float):
        return a == b or a != a and b != b or abs(a - b) <= 1e-11 * max(1, abs(a), abs(b))
    return a == b


@contextlib.contextmanager
def quiet():
    """Swallow what the library prints (it must not be able to forge verdict lines)."""
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        sys.stdout = old


def main(root, argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--triage", type=int, default=0, help="do not stop at violations; print N per call site")
    a = ap.parse_args(argv)
    pid, tier = a.property, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    only = None
    global MAX_VIOL
    if a.triage:
        MAX_VIOL = 10 ** 9
    if a.replay:
        r = json.load(open(a.replay))
        only, tier = r["key"], r["tier"]
    kf = os.path.join(root, "known_findings.json")
    known = json.load(open(kf))["findings"] if os.path.exists(kf) else []
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    except Exception:
        pass
    ck = Ck(pid, tier, seed, only, known)
    stopped = False
    try:
        with quiet():
            mod = importlib.import_module(f"mc.{pid.lower()}")
            mod.explore(ck)
    except Stop:
        stopped = True
    except ImportError as e:
        # the package under test cannot be imported: no behaviour of it holds
        if "actuarialmath" not in str(e) and "mc." in str(e):
            raise
        traceback.print_exc()
        ck.violations.append(dict(key="import(actuarialmath)", got=str(e), want="importable"))
    except Exception as e:
        stopped = True
        if not blames_library(e):
            if not ck.violations:
                raise
            traceback.print_exc()       # the harness lost its way, but only after the violations reported below
        else:
            with contextlib.suppress(Stop):
                ck.crash("main", e)
    for what, n in sorted(ck.findings.items()):
        print(f"KNOWN-FINDING: property={pid} {what} [{n} configurations]")
    if a.triage:
        by = {}
        for v in ck.violations:
            by.setdefault(v["key"].split("(")[0], []).append(v)
        for site, vs in sorted(by.items()):
            print(f"## {site}: {len(vs)} of {ck.sites.get(site)}")
            n = max(1, len(vs) // a.triage)
            for v in vs[::n][:a.triage]:
                print(f"   {v['key']}\n      got {v['got']} want {v['want']}")
        print(f"{pid}: {len(ck.violations)} bad of {ck.compared}, {time.time() - t0:.1f}s")
        return 1
    rc = 0
    root = os.environ.get("VERIF_OUT", root)
    rdir = os.path.join(root, "replay")
    for v in ck.violations[:MAX_VIOL]:
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.sha1(v["key"].encode()).hexdigest()[:10]
        path = os.path.join(rdir, f"{pid}-{h}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, tier=tier, **v), f, indent=1)
        print(f"  {v['key']}: implementation {v['got']}, model {v['want']}")
        print(f"VIOLATION property={pid} replay={path}")
        rc = 1
    wall = time.time() - t0
    cov = dict(states=len(ck.states), transitions=ck.transitions, traces_validated_against_impl=ck.traces,
               samples=ck.samples[:25] or ["(none)"], implementation_calls=ck.compared,
               distinct_model_outcomes=len(ck.outcomes), calls_per_site=dict(sorted(ck.sites.items())),
               exhaustive=not stopped and only is None, **ck.notes)
    if only is None:
        os.makedirs(os.path.join(root, "evidence"), exist_ok=True)
        with open(os.path.join(root, "evidence", f"{pid}.json"), "w") as f:
            json.dump(dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
                           assumptions=getattr(mod, "ASSUMPTIONS", []) if "mod" in dir() else [], wall_s=round(wall, 2),
                           violations=len(ck.violations)), f, indent=1)
    print(f"{pid} {tier}: states={len(ck.states)} transitions={ck.transitions} calls={ck.compared} "
          f"validated={ck.traces} outcomes={len(ck.outcomes)} violations={len(ck.violations)} wall={wall:.1f}s")
    if rc == 0 and ck.compared == 0:
        print("nothing explored")
        return 2
    return rc
