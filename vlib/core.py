"""Case execution: what a check is made of, how a worker runs one unit of it.

A unit is a generator of JSON-serialisable cases and a function `check(case, ctx)` that runs the
code under test on one case and raises Violation when the property does not hold.  Hypothesis
generates and shrinks the cases; a violation becomes a replay file that `check` is run on again
without Hypothesis.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback

TIERS = ("quick", "thorough")
SHRINK_S = 40
HANG_CPU_S = 100


class Violation(Exception):
    """The property does not hold for this case (or for the simpler one given)."""

    def __init__(self, message, case=None):
        super().__init__(message)
        self.case = case


class Hang(BaseException):
    pass


class Unit:
    def __init__(self, name, mode, check, gen=None, cases=None, quick=1000, thorough=None, shards=4,
                 tshards=None, no_native_rmd=False, fallback_quick=None, fallback_thorough=None, weight=1, environ=None):
        self.name, self.mode, self.check = name, mode, check
        self.gen, self.cases = gen, cases
        self.n = {"quick": quick, "thorough": thorough if thorough is not None else quick * 12}
        self.shards = {"quick": shards, "thorough": tshards or shards}
        self.no_native_rmd = no_native_rmd
        self.environ = environ or {}             # set before the code under test is imported
        # numbers of cases should the code under test not reach the stand-in KDF
        self.fb = {"quick": fallback_quick or max(8, quick // 500),
                   "thorough": fallback_thorough or max(40, quick // 50)}


class Out:
    """Outcome of one call of the code under test."""
    __slots__ = ("ok", "value", "exc")

    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    def __repr__(self):
        if self.ok:
            return "returned %s" % short(self.value)
        return "raised %s: %s" % (type(self.exc).__name__, short(str(self.exc)))


def short(v, n=300):
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[:n] + "...(%d)" % len(s)


def call(fn, *a, **k):
    try:
        return Out(True, fn(*a, **k))
    except Exception as e:  # noqa: BLE001 - every outcome is judged by the caller
        return Out(False, exc=e)


class Ctx:
    """What one worker accumulates, and what a check may use."""

    def __init__(self, lib, unit, tier, seed):
        self.lib, self.unit, self.tier, self.seed = lib, unit, tier, seed
        self.evaluations = 0
        self.distinct = set()
        self.labels = {}
        self.samples = []
        self.known = {}
        self.notes = {}
        self._nt = False
        self._labels = []
        self._nt_total = 0

    # ---- for checks
    def label(self, name):
        self._labels.append(name)

    def nontrivial(self, yes=True):
        self._nt = self._nt or bool(yes)

    def fail(self, msg, expected=None, actual=None):
        if expected is not None or actual is not None:
            msg += "; expected %s; got %s" % (short(expected), short(actual))
        raise Violation(msg)

    def want(self, cond, msg, expected=None, actual=None):
        if not cond:
            self.fail(msg, expected, actual)

    def same(self, actual, expected, msg):
        if type(actual) is not type(expected) or actual != expected:
            self.fail(msg, repr(expected), repr(actual))

    def value(self, out, msg):
        """The value of a call that must succeed."""
        if not out.ok:
            self.fail(msg + " should succeed but %r" % out)
        return out.value

    def refused(self, out, msg, kinds=None):
        """A call that must be refused with an error of these kinds (default: library error or ValueError)."""
        kinds = kinds or (self.lib.Error, ValueError)
        kinds = kinds if isinstance(kinds, tuple) else (kinds,)
        if out.ok:
            self.fail(msg + " should be refused but %r" % out)
        if not isinstance(out.exc, kinds):
            self.fail(msg + " should be refused with %s but %r"
                      % ("/".join(k.__name__ for k in kinds), out))

    def finding(self, fid, msg):
        """A known finding: listed -> recorded; not listed -> violation."""
        if fid in known_ids(self.unit_property):
            self.known[fid] = msg
        else:
            self.fail(msg)

    unit_property = None

    # ---- for the runner
    def execute(self, case):
        self._nt = False
        self._labels = []
        signal.setitimer(signal.ITIMER_PROF, HANG_CPU_S)
        try:
            self.unit.check(case, self)
        except Hang:
            raise Violation("no result after %d s of processor time" % HANG_CPU_S)
        except RecursionError:
            raise
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            self.evaluations += 1
            for name in set(self._labels):
                self.labels[name] = self.labels.get(name, 0) + 1
            if self._nt:
                self._nt_total += 1
                h = hashlib.blake2b(canon(case).encode(), digest_size=8).hexdigest()
                if h not in self.distinct:
                    self.distinct.add(h)
                    if self._nt_total in (3, 40, 300, 2000):
                        self.samples.append(case)
                    elif not self.samples:
                        self.samples.append(case)


MALFORMED = (TypeError, AttributeError, LookupError, ValueError)


def independent_examples():
    """Hypothesis turns each example it draws into up to five more that repeat a part of it elsewhere.  That is seldom of use
    here, where repetition is generated on purpose, and costs four fifths of the variety."""
    from hypothesis.internal.conjecture import engine
    runner = getattr(engine, "ConjectureRunner", None)
    genuine = getattr(runner, "generate_mutations_from", None)
    if genuine is None or getattr(genuine, "seldom", False):
        return

    def seldom(self, data):
        if self.random.random() < 0.05:
            genuine(self, data)

    seldom.seldom = True
    runner.generate_mutations_from = seldom


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_ids(prop):
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        data = json.load(f)
    return {e["id"] for e in data["open"] if e["property"] == prop}


def _on_prof(_sig, _frame):
    raise Hang()


def derive_seed(seed, prop, unit, shard):
    h = hashlib.sha256(("%d/%s/%s/%d" % (seed, prop, unit, shard)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def run_worker(prop, module, unit, tier, seed, shard, shards, n, deadline, out_path):
    from vlib import env
    signal.signal(signal.SIGPROF, _on_prof)
    result = {"unit": unit.name, "shard": shard}
    ctx = None
    history = []

    def finish(status, **extra):
        result.update(status=status, **extra)
        if ctx is not None:
            result.update(evaluations=ctx.evaluations, distinct=sorted(ctx.distinct), labels=ctx.labels,
                          samples=ctx.samples[:4], known=ctx.known, notes=ctx.notes)
        tmp = out_path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(result, f)
        os.replace(tmp, out_path)
        sys.stdout.flush()
        os._exit(0)

    mode = unit.mode
    os.environ.update(unit.environ)
    try:
        lib = env.load(mode, no_native_rmd=unit.no_native_rmd)
    except Exception:  # noqa: BLE001
        finish("error", error="importing the code under test failed\n" + traceback.format_exc())
    if mode == "stub" and not lib.calibrated:
        env.use_real()
        n = max(2, unit.fb[tier] // shards)
        result["fallback"] = "the code under test does not reach the stand-in KDF; real one used"
    if hasattr(module, "prepare"):
        module.prepare(lib)
    ctx = Ctx(lib, unit, tier, seed)
    ctx.unit_property = prop
    ctx.shard, ctx.shards = shard, shards
    # every other shard keeps its BIP38 instances from case to case
    env.reuse_instances = bool(shard % 2)
    best, judging = {}, []

    class Done(BaseException):
        pass

    def run_case(case):
        now = time.time()
        if best and now > best["t0"] + SHRINK_S:
            raise Done()
        if not best and now > deadline:
            ctx.notes["budget_hit"] = ctx.notes.get("budget_hit", 0) + 1
            return
        text = canon(case)
        case = json.loads(text)
        if not best:
            history.append(case)
        judging.append(1)
        try:
            ctx.execute(case)
            judging.clear()
        except MALFORMED:
            # what the code under test returned has not the form that can be judged
            v = Violation("the outcome cannot be judged\n" + traceback.format_exc()[-800:])
            if not best:
                best.update(t0=now, case=case, msg=str(v), size=len(text), first=case, history=history[-400:-1])
            elif len(text) < best["size"]:
                best.update(case=case, msg=str(v), size=len(text))
            raise v
        except Violation as v:
            if v.case is not None:
                case, text = v.case, canon(v.case)
            if not best:
                best.update(t0=now, case=case, msg=str(v), size=len(text), first=case,
                            history=history[-400:-1])
            elif len(text) < best["size"]:
                best.update(case=case, msg=str(v), size=len(text))
            raise

    error = None
    try:
        if unit.cases is not None:
            for i, case in enumerate(unit.cases(ctx)):
                if i % shards == shard:
                    run_case(case)
        else:
            import hypothesis
            from hypothesis import HealthCheck, Phase, Verbosity, given, settings
            independent_examples()

            @settings(max_examples=n, database=None, deadline=None, phases=[Phase.generate, Phase.shrink],
                      suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                      print_blob=False, verbosity=Verbosity.quiet, derandomize=False)
            @given(unit.gen(lib))
            def test(case):
                run_case(case)

            for attempt in range(4):
                try:
                    hypothesis.seed(derive_seed(seed, prop, unit.name, shard + 1000 * attempt))(test)()
                    break
                except Exception:  # noqa: BLE001
                    # a case that could not be generated (not one that could not be judged): others can
                    if best or judging or attempt == 3:
                        raise
                    ctx.notes["generation_failed"] = traceback.format_exc()[-600:]
    except Done:
        pass
    except Violation:
        pass
    except BaseException:  # noqa: BLE001
        error = traceback.format_exc()
    if best:
        finish("violation", case=best["case"], first=best["first"], msg=best["msg"], history=best["history"])
    if error:
        finish("error", error=error)
    finish("ok")


def run_replay(prop, module, unit, tier, seed, case, history, out_path, reuse=False):
    """Runs the saved case once, without Hypothesis.  Exit code 1 if the violation shows."""
    from vlib import env
    signal.signal(signal.SIGPROF, _on_prof)
    os.environ.update(unit.environ)
    lib = env.load(unit.mode, no_native_rmd=unit.no_native_rmd)
    if unit.mode == "stub" and not lib.calibrated:
        env.use_real()
    if hasattr(module, "prepare"):
        module.prepare(lib)
    ctx = Ctx(lib, unit, tier, seed)
    ctx.unit_property = prop
    ctx.shard, ctx.shards = 0, 1
    env.reuse_instances = reuse
    for h in history:
        try:
            ctx.execute(h)
        except (Violation,) + MALFORMED:
            pass
    try:
        ctx.execute(case)
    except MALFORMED:
        print("reproduced: " + traceback.format_exc())
        return 1
    except Violation as v:
        print("reproduced: %s" % v)
        return 1
    print("not reproduced")
    return 0
