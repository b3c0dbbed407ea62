"""Check harness: obligations, solver calls, replay of counterexamples, evidence."""
import signal, sys, os, json, time, subprocess, tempfile, shutil, traceback, builtins, contextlib, importlib
from fractions import Fraction

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
PY = sys.executable

TITLES = {}


class Inconclusive(Exception):
    pass


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.queries = []            # (label, status, seconds)
        self.violations = []         # (label, replay path, msg)
        self.known = []
        self.problems = []           # inconclusive things
        self.samples = []
        self.validated = 0
        self.valid_notes = []
        self.bounds = []
        self.stubs = []
        self.assumptions = []
        self.encoded = set()
        self.paths = 0
        self.cut = 0
        self.obligations = 0
        self.transitions = 0
        self.extra = {}
        self.prims, self.stats = {}, {}
        self.timeout = 60 if tier == "quick" else 300
        self.known_list = [k for k in load_known() if k["property"] == pid]

    thorough = property(lambda s: s.tier == "thorough")
    shard_i, shard_n = 0, 1
    first = property(lambda s: s.shard_i == 0)

    def shard(self, items):
        """the part of the work list this process does"""
        for i, x in enumerate(items):
            if i % self.shard_n == self.shard_i:
                yield x

    # ------------------------------------------------------------------
    def jobs(self, jobs, limit=None):
        """run this shard's part of jobs = [(function, *args)]; one that fails or exceeds its time limit (seconds, quick tier)
        is reported as a problem and the others still run"""
        for j in self.shard(jobs):
            lab = j[0].__name__ + "/" + "/".join(map(str, j[1:]))
            try:
                if limit:
                    arm(job=limit * (40 if self.thorough else 1))
                t = time.time()
                try:
                    j[0](self, lab, *j[1:])
                finally:
                    arm(job=None)
                    if os.environ.get("VF_TIMES"):
                        open(os.environ["VF_TIMES"], "a").write(f"{time.time() - t:7.1f} {lab}\n")
            except JobTimeUp:
                self.problems.append(f"{lab}: time limit exceeded")
            except Exception as e:
                traceback.print_exc()
                self.problems.append(f"{lab}: exception {type(e).__name__}: {e}")

    def solve(self, label, formulas, timeout=None, tactic=None):
        """solver verdict on the conjunction of z3 formulas"""
        import z3
        timeout = timeout or self.timeout
        t = time.time()
        s = z3.SolverFor(tactic) if tactic else z3.Solver()
        s.set("timeout", int(timeout * 1000))
        s.set("random_seed", 1) if not tactic else None
        for f in formulas:
            s.add(f)
        r = str(s.check())
        if r == "unknown" and tactic is None:
            s2 = z3.Tactic("qfnra-nlsat").solver()
            s2.set("timeout", int(timeout * 1000))
            for f in formulas:
                s2.add(f)
            try:
                r2 = str(s2.check())
            except z3.Z3Exception:
                r2 = "unknown"
            if r2 != "unknown":
                r, s = r2, s2
        dt = time.time() - t
        self.queries.append((label, r, round(dt, 4)))
        return r, (s.model() if r == "sat" else None)

    def model_env(self, model, exprs):
        """values (Fractions where rational) of all variables of exprs"""
        from . import scal
        import z3
        env = {}
        conv = scal.PATH.conv
        for name, v in scal.fvars(exprs).items():
            z = conv(v)
            mv = model.eval(z, model_completion=True)
            if v.sort == "B":
                env[name] = z3.is_true(mv)
            elif z3.is_rational_value(mv):
                env[name] = Fraction(mv.numerator_as_long(), mv.denominator_as_long())
            elif z3.is_algebraic_value(mv):
                a = mv.approx(30)
                env[name] = Fraction(a.numerator_as_long(), a.denominator_as_long())
            else:
                env[name] = Fraction(0)
        return env

    def prove(self, label, bad, conds=(), case=None, hints=(), exprs=(), reach=True):
        """discharge: no assignment satisfies conds and (some element of) bad.
        bad: list of E bools / python bools.  case(env)->dict is the concrete
        replay input for a model.  hints: list of lists of E-bools tried first
        to get a well conditioned counterexample."""
        from . import scal
        self.obligations += 1
        conv = scal.PATH.conv
        bad = [b for b in bad if isinstance(b, scal.E) or b]
        try:
            base = [conv(c) for c in conds if isinstance(c, scal.E)]
            if any((not isinstance(c, scal.E)) and not c for c in conds):
                base.append(conv(False))
            zb = [conv(b) if isinstance(b, scal.E) else conv(True) for b in bad]
        except scal.Unsupported as e:
            self.problems.append(f"{label}: {e}")
            return None
        import z3
        def _side(*es):
            return conv.sides([e for l in es for e in l])
        # reachability witness (non-vacuity)
        if reach:
            if base:
                r, _ = self.solve(label + " [reach]", base + _side(conds))
                if r == "unsat":
                    self.problems.append(f"{label}: obligation is unreachable (vacuous)")
                    return None
        goal = z3.Or(zb) if len(zb) != 1 else zb[0]
        if not zb:
            goal = z3.BoolVal(False)
        r, m = self.solve(label, base + [goal] + _side(conds, bad))
        if r == "unsat":
            return True
        if r == "unknown":
            r, m = self.guided(label, bad, conds, base + [goal] + _side(conds, bad))
        if r != "sat":
            self.problems.append(f"{label}: solver answered unknown")
            return None
        allx = list(exprs) + [b for b in bad if isinstance(b, scal.E)] + [c for c in conds if isinstance(c, scal.E)]
        models = []
        for h in hints:
            try:
                hz = [conv(x) for x in h if isinstance(x, scal.E)]
            except scal.Unsupported:
                continue
            if any((not isinstance(x, scal.E)) and not x for x in h):
                continue
            fs = base + [goal] + hz
            rr, mm = self.solve(label + " [hint]", fs + _side(conds, bad, h), timeout=20)
            if rr == "sat":
                models.append(mm)
        models.append(m)
        last = None
        for mm in models:
            env = self.model_env(mm, allx)
            if case is None:
                break
            c = case(env)
            ok, path, msg = self.replay(label, c)
            last = msg
            if ok:
                self.report(label, path, msg)
                return False
        self.problems.append(f"{label}: solver counterexample did not reproduce on the real code ({last})")
        return None

    def guided(self, label, bad, conds, formulas):
        """help the solver to a model: fix the values of the variables and of every application of an uninterpreted function
        as some concrete function would (exact rational arithmetic), and ask it again"""
        import zlib
        from . import scal
        es = [e for e in list(bad) + list(conds) if isinstance(e, scal.E)]
        names = scal.fvars(es)
        if any(v.sort != "R" for v in names.values()):
            return "unknown", None
        for seed in range(12):
            val = lambda *k: Fraction(zlib.crc32(repr((seed,) + k).encode()) % 13 + 1, 4) * (1 if zlib.crc32(repr(k).encode()) % 3 or seed % 2 else -1)
            env = {n: abs(val(n)) if n in ("dt",) or seed % 2 == 0 else val(n) for n in names}
            memo = {}
            try:
                if not all(scal.evalf(c, env, memo, True, lambda n, a: val(n, *map(str, a))) for c in conds):
                    continue
                if not any(scal.evalf(b, env, memo, True, lambda n, a: val(n, *map(str, a))) for b in bad):
                    continue
            except (scal.Unsupported, ZeroDivisionError, TypeError):
                continue
            conv, pins = scal.PATH.conv, []
            st, seen = list(es), set()
            while st:
                x = st.pop()
                if x.id in seen:
                    continue
                seen.add(x.id)
                if x.op in ("var", "ufn") and x.id in memo:
                    pins.append(conv(x) == conv.const(memo[x.id]))
                st.extend(scal.children(x))
            r, m = self.solve(label + " [guided]", formulas + pins)
            if r == "sat":
                return r, m
        return "unknown", None

    def report(self, label, path, msg):
        for k in self.known_list:
            if k["key"] == label:
                self.known.append((label, k["what"]))
                return
        self.violations.append((label, path, msg))
        if len(self.violations) == 1 and LIMITS["all"] is not None:
            arm(all=AFTER_VIOLATION)
            if os.environ.get("VF_OUT"):
                open(os.environ["VF_OUT"] + ".violation", "w").close()

    def replay(self, label, case):
        """run the concrete case against the real code in a clean process"""
        d = os.path.join(ROOT, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        safe = "".join(ch if ch.isalnum() else "_" for ch in label)[:80]
        path = os.path.join(d, f"{self.pid}-{safe}.json")
        case = dict(case)
        case["property"], case["label"] = self.pid, label
        json.dump(case, open(path, "w"), indent=1, default=_js)
        t = time.time()
        try:
            p = subprocess.run([PY, os.path.join(ROOT, "run.py"), "replay", path], capture_output=True, text=True,
                               timeout=240, env=os.environ)
        except subprocess.TimeoutExpired:
            return False, path, "replay timed out"
        out = (p.stdout or "").strip().splitlines()
        msg = next((l for l in reversed(out) if l.startswith("REPLAY")), (p.stderr or "")[-400:])
        return p.returncode == 1 and msg.startswith("REPLAY violated"), path, msg

    def direct(self, label, case):
        """a violation established by the symbolic run itself (e.g. the code
        raised on a path); must still reproduce concretely"""
        ok, path, msg = self.replay(label, case)
        if ok:
            self.report(label, path, msg)
            return False
        self.problems.append(f"{label}: did not reproduce on the real code ({msg})")
        return None

    def validate(self, label, ok, note=""):
        """encoder validation: encoding evaluated at a concrete input vs the real run"""
        self.validated += 1
        if not ok:
            self.problems.append(f"encoder validation failed: {label} {note}")
        self.valid_notes.append(label)

    LISTS = ("queries", "violations", "known", "problems", "samples", "valid_notes", "bounds", "stubs", "assumptions")
    NUMS = ("validated", "paths", "cut", "obligations")

    def dump(self, path):
        """what a shard hands to its parent"""
        from . import scal, jsym
        d = {k: getattr(self, k) for k in self.LISTS + self.NUMS}
        d.update(extra=self.extra, encoded=sorted(self.encoded | set(jsym.FUNCS)), prims=dict(jsym.USED), stats=dict(scal.PATH.stats))
        with open(path + ".tmp", "w") as f:
            json.dump(d, f, default=_js)
        os.replace(path + ".tmp", path)

    def merge(self, d):
        for k in self.LISTS:
            l = getattr(self, k)
            for x in d[k]:
                x = tuple(x) if isinstance(x, list) and k in ("queries", "violations", "known") else x
                if k not in ("bounds", "stubs", "assumptions") or x not in l:
                    l.append(x)
        for k in self.NUMS:
            setattr(self, k, getattr(self, k) + d[k])
        for k, v in d["extra"].items():
            self.extra[k] = self.extra[k] + v if k in self.extra and isinstance(v, (int, float, list)) else v
        self.encoded |= set(d["encoded"])
        for k, v in d["prims"].items():
            self.prims[k] = self.prims.get(k, 0) + v
        for k, v in d["stats"].items():
            self.stats[k] = self.stats.get(k, 0) + v

    def finish(self):
        from . import scal
        from . import jsym
        prims, st = dict(self.prims), dict(self.stats)
        for k, v in jsym.USED.items():
            prims[k] = prims.get(k, 0) + v
        for k, v in scal.PATH.stats.items():
            st[k] = st.get(k, 0) + v
        self.transitions = sum(prims.values())
        self.encoded |= set(jsym.FUNCS)
        prims = dict(sorted(prims.items()))
        nun = sum(1 for q in self.queries if q[1] == "unsat")
        cov = {
            "states": int(max(self.paths + st["paths"], 1)),
            "transitions": int(self.transitions),
            "traces_validated_against_impl": int(self.validated),
            "samples": (self.samples or [q[0] for q in self.queries[:5]])[:20],
            "states_meaning": "symbolic execution paths of the real code explored to the end",
            "transitions_meaning": "IR operations (JAX primitives / numpy operations) evaluated symbolically",
            "functions_encoded": sorted(self.encoded),
            "primitives_evaluated": prims,
            "obligations": self.obligations,
            "queries": len(self.queries),
            "queries_unsat": nun,
            "solver_seconds": round(sum(q[2] for q in self.queries) + st["feas_s"], 3),
            "path_feasibility_queries": st["feasibility_queries"],
            "paths_cut_at_bound": st["cut"] + self.cut,
            "bounds": self.bounds,
            "contracts_substituted": self.stubs,
            "validated_cases": self.valid_notes[:40],
            "slowest_queries": sorted(self.queries, key=lambda q: -q[2])[:5],
            "known_findings_seen": [k[0] for k in self.known],
            "inconclusive": self.problems[:20],
        }
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
              "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w"), indent=1, default=str)
        for k, what in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {what}")
        seen = set()
        for label, path, msg in self.violations:
            print(f"[{label}] {msg}")
            if label in seen:
                continue
            seen.add(label)
            print(f"VIOLATION property={self.pid} replay={path}")
        print(f"{self.pid} {self.tier}: {self.obligations} obligations, {len(self.queries)} queries, "
              f"{cov['states']} paths, {self.validated} validated, {ev['wall_s']}s, violations={len(self.violations)}, "
              f"inconclusive={len(self.problems)}")
        if self.violations:
            return 1
        if self.problems:
            for p in self.problems[:10]:
                print("INCONCLUSIVE:", p)
            return 2
        return 0


def paths(ck, lab, go, case, replay, validate=True):
    """prove the list of violations returned by go() on every path; an exception of the real code is replayed with the default inputs"""
    from . import scal
    try:
        found = list(scal.explore(go))
    except (scal.Unsupported, scal.BoundExceeded, scal.Infeasible):
        raise
    except Exception as e:
        b, msg = replay(case({}))
        if b:
            ck.direct(lab, case({}))
        else:
            ck.problems.append(f"{lab}: exception {type(e).__name__}: {str(e)[:200]}")
        return
    for pi, (st, bad, conds, _) in enumerate(found):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({bad})")
            continue
        ck.prove(f"{lab}/path{pi}", bad, conds, case)
    if validate:
        b, msg = replay(case({}))
        ck.validate(lab, (not b) or bool(ck.violations), msg)


def _js(o):
    if isinstance(o, Fraction):
        return float(o)
    try:
        import numpy as np
        if isinstance(o, np.generic):
            return o.item()
        if isinstance(o, np.ndarray):
            return o.tolist()
    except ImportError:
        pass
    return str(o)


# --------------------------------------------------------------------------
def modules():
    return [m for n, m in list(sys.modules.items()) if m is not None and (n == "ormatex_py" or n.startswith("ormatex_py."))]


@contextlib.contextmanager
def patched(pairs=(), globals_=None):
    """replace objects by identity in every loaded ormatex_py module; inject
    extra module globals.  Restores everything on exit."""
    saved = []
    for m in modules():
        d = m.__dict__
        for k in list(d):
            for old, new in pairs:
                if d[k] is old:
                    saved.append((d, k, d[k], True))
                    d[k] = new
                    break
        for k, v in (globals_ or {}).items():
            saved.append((d, k, d.get(k), k in d))
            d[k] = v
    try:
        yield
    finally:
        for d, k, v, had in reversed(saved):
            if had:
                d[k] = v
            else:
                d.pop(k, None)


class TimeUp(BaseException):
    pass


class JobTimeUp(BaseException):
    pass


class Stop(TimeUp):
    """another shard has confirmed a violation"""


def _stop(*a):
    raise Stop()


LIMITS = {"all": None, "job": None}     # absolute deadlines


def arm(**kw):
    """set a deadline `seconds` from now (None removes it); the overall one can only come nearer"""
    now = time.time()
    for k, sec in kw.items():
        d = None if sec is None else now + sec
        if k == "all" and d is not None and LIMITS["all"] is not None:
            d = min(d, LIMITS["all"])
        LIMITS[k] = d
    ds = [d for d in LIMITS.values() if d is not None]
    signal.setitimer(signal.ITIMER_REAL, max(0.01, min(ds) - now) if ds else 0)


def _timeup(*a):
    now = time.time()
    if LIMITS["all"] is not None and now >= LIMITS["all"] - 0.005:
        raise TimeUp()
    if LIMITS["job"] is not None and now >= LIMITS["job"] - 0.005:
        LIMITS["job"] = None
        arm()
        raise JobTimeUp()
    arm()


BUDGET = {"quick": 640, "thorough": 6 * 3600}
AFTER_VIOLATION = 30          # seconds of further exploration once a violation is confirmed


def run_shards(ck, pid, tier, n, scratch):
    procs = []
    for i in range(n):
        out, log = os.path.join(scratch, f"out{i}.json"), open(os.path.join(scratch, f"log{i}"), "w+")
        env = dict(os.environ, VF_SHARD=f"{i}/{n}", VF_OUT=out)
        procs.append((subprocess.Popen([PY, os.path.join(ROOT, "run.py"), pid, tier], env=env, stdout=log, stderr=log), out, log))
    seen = None
    while any(p.poll() is None for p, _, _ in procs):
        time.sleep(0.1)
        if seen is None and any(os.path.exists(o + ".violation") for _, o, _ in procs):
            seen = time.time()
        if seen and time.time() > seen + AFTER_VIOLATION:
            for p, _, _ in procs:
                if p.poll() is None:
                    p.send_signal(signal.SIGUSR1)
            seen = time.time() + 5 - AFTER_VIOLATION
    for i, (p, out, log) in enumerate(procs):
        rc = p.wait()
        log.seek(0)
        txt = log.read()
        if "Traceback" in txt or rc != 0:
            sys.stderr.write(txt[-3000:])
        if rc != 0 or not os.path.exists(out):
            ck.problems.append(f"shard {i} ended with {rc}: {txt[-300:]}")
            continue
        ck.merge(json.load(open(out)))


def main(argv):
    scratch = tempfile.mkdtemp(prefix="vf_")
    os.environ["MPLCONFIGDIR"] = scratch
    try:
        if argv[0] == "setup":
            import z3, jax, ormatex_py.ode_exp
            print("z3", z3.get_version_string(), "jax", jax.__version__)
            return 0
        if argv[0] == "replay":
            case = json.load(open(argv[1]))
            os.chdir(scratch)
            mod = importlib.import_module("checks." + case["property"].lower())
            bad, msg = mod.replay(case)
            print(("REPLAY violated: " if bad else "REPLAY holds: ") + str(msg))
            return 1 if bad else 0
        pid, tier = argv[0], (argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick"))
        os.chdir(scratch)
        ck = Check(pid, tier)
        sys.setrecursionlimit(200000)
        sh = os.environ.get("VF_SHARD")
        try:
            signal.signal(signal.SIGALRM, _timeup)
            signal.signal(signal.SIGUSR1, _stop if sh else signal.SIG_IGN)
            mod = importlib.import_module("checks." + pid.lower())
            n = getattr(mod, "SHARDS", 1)
            n = n if isinstance(n, int) else n[tier]
            if n > 1 and not sh:
                run_shards(ck, pid, tier, n, scratch)
            else:
                if sh:
                    ck.shard_i, ck.shard_n = map(int, sh.split("/"))
                arm(all=BUDGET.get(tier, BUDGET["quick"]))
                mod.run(ck)
                arm(all=None, job=None)
        except TimeUp as e:
            if not ck.violations and not isinstance(e, Stop):
                ck.problems.append("time budget used up before the exploration was complete")
        except Exception as e:
            traceback.print_exc()
            ck.problems.append(f"exception: {type(e).__name__}: {e}")
        if sh:
            ck.dump(os.environ["VF_OUT"])
            return 0
        return ck.finish()
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
