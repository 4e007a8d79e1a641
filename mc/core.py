"""Explorers: exhaustive enumeration of choice tapes and of operation histories, with replayable counterexamples."""
import copy
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold on this execution.  ``key`` names the failing input/history for known findings."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class Skip(Exception):
    """This execution is outside the alphabet (not counted)."""


class _Shard(Exception):
    pass


class _Cut(Exception):
    pass


class Divergence(Exception):
    """Replaying a prefix met different choices: nondeterminism the harness does not own."""


class Tape:
    """Sequence of environment/input choices. Choice 0 is the default; others are deviations."""

    def __init__(self, prefix=(), shard=None, depth=2, max_dev=None):
        self.prefix, self.shard, self.depth, self.max_dev = prefix, shard, depth, max_dev
        self.taken, self.widths, self.labels, self.devcost = [], [], [], []
        self.inner = 0     # executions explored inside the body beyond the tape's own choices

    def choose(self, options, label="", dev=False):
        """Returns one element of options (sequence, or int n for range(n)). dev: non-zero choice is a deviation."""
        opts = range(options) if isinstance(options, int) else options
        n = len(opts)
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise Divergence(f"choice {i} ({label}): {c} out of {n}")
        self.taken.append(c)
        self.widths.append(n)
        self.labels.append(label)
        self.devcost.append(bool(dev))
        if self.shard and len(self.taken) == self.depth:
            h = 0
            for t, w in zip(self.taken, self.widths):
                h = h * w + t
            if h % self.shard[1] != self.shard[0]:
                raise _Shard()
        return opts[c]

    def devs(self, upto):
        return sum(1 for t, d in zip(self.taken[:upto], self.devcost[:upto]) if d and t)


class Stats:
    def __init__(self):
        self.executions = self.transitions = self.states = 0
        self.outcomes = set()
        self.samples = []
        self.capped = False
        self.skipped = 0
        self.shape = {}

    def merge(self, other):
        self.executions += other.executions
        self.transitions += other.transitions
        self.states += other.states
        self.outcomes |= other.outcomes
        self.samples += other.samples
        self.capped |= other.capped
        self.skipped += other.skipped
        for k, v in other.shape.items():
            self.shape[k] = self.shape.get(k, 0) + v


def digest(x):
    return hashlib.md5(repr(x).encode()).hexdigest()[:16]


def describe_error(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb[-4:])
    return f"{type(e).__name__}: {e} [{where}]"


HANG = float(os.environ.get("MC_HANG", 150))     # seconds for one execution


def _hung(*_):
    raise Violation(f"the execution did not end within {HANG} s")


signal.signal(signal.SIGALRM, _hung)


def _guard(fn, *a):
    """An exception escaping from the code under test in a driver that defines the call as valid is a violation."""
    try:
        signal.setitimer(signal.ITIMER_REAL, HANG, 5)
        return fn(*a)
    except (Violation, Skip, _Shard, Divergence):
        raise
    except MemoryError:
        raise
    except Exception as e:  # noqa
        from mc.env import NotModelled
        if isinstance(e, NotModelled):
            raise
        raise Violation("unexpected error: " + describe_error(e))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


class TapeJob:
    """Stateless exploration: runs body(tape) for every choice sequence (up to max_dev deviations)."""

    def __init__(self, name, body, max_dev=None, shards=1, depth=2, cap=None):
        self.name, self.body, self.max_dev, self.shards, self.depth, self.cap = name, body, max_dev, shards, depth, cap

    def run(self, shard, st, report, deadline):
        prefix = []
        sh = (shard, self.shards) if self.shards > 1 else None
        nsample = 0
        while True:
            t = Tape(prefix, sh, self.depth)
            try:
                out = _guard(self.body, t)
                if sh and len(t.taken) < self.depth and shard != 0:
                    pass
                else:
                    st.executions += 1
                    st.transitions += len(t.taken) + t.inner
                    st.outcomes.add(digest((self.name, out)))
                    k = (self.name, len(t.taken))
                    st.shape[str(k)] = st.shape.get(str(k), 0) + 1
                    if nsample < 1 and st.executions > 3:
                        nsample += 1
                        st.samples.append(dict(job=self.name, choices=list(t.taken), labels=t.labels, outcome=str(out)[:300]))
            except _Shard:
                pass
            except Skip:
                st.skipped += 1
            except Violation as v:
                st.executions += 1
                report(self.name, dict(choices=list(t.taken), labels=list(map(str, t.labels))), v)
            # next prefix: deepest position that may be advanced
            i = len(t.taken) - 1
            while i >= 0:
                if t.taken[i] + 1 < t.widths[i]:
                    if not (self.max_dev is not None and t.devcost[i] and
                            t.devs(i) + 1 > self.max_dev):
                        break
                i -= 1
            if i < 0:
                return
            prefix = t.taken[:i] + [t.taken[i] + 1]
            if time.time() > deadline or (self.cap and st.executions >= self.cap):
                st.capped = True
                return

    def replay(self, case):
        t = Tape(case["choices"])
        return _guard(self.body, t)


class HistJob:
    """Bounded exploration of operation histories against a reference model.

    make()            -> system object (real + model inside)
    ops               -> list of (name, fn(system)); fn performs the operation on real and model and raises Violation
                         on disagreement; it may raise Skip when not enabled
    canon(system)     -> hashable canonical state
    Every state is rebuilt by replaying its history on fresh real objects (so that aliasing between objects is the
    one the implementation itself created), and the replayed prefix must reach the recorded state again.
    """

    def __init__(self, name, make, ops, canon, depth, shards=1, dedupe=True, deep_ops=None):
        self.name, self.make, self.ops, self.canon, self.depth = name, make, ops, canon, depth
        self.shards, self.dedupe = min(shards, len(ops)), dedupe
        self.deep_ops = deep_ops  # optional: indices of ops used beyond depth 1

    def _build(self, hist):
        s = self.make()
        for i in hist:
            self.ops[i][1](s)
        return s

    def run(self, shard, st, report, deadline):
        try:
            k0 = _guard(lambda: self.canon(self.make()))
        except Violation as v:
            report(self.name, dict(history=[]), v)
            return
        seen = {k0}
        frontier = [((), k0)]
        if shard == 0:
            st.states += 1
        for level in range(self.depth):
            nxt = []
            idx = range(len(self.ops)) if level == 0 or self.deep_ops is None else self.deep_ops
            for hist, key in frontier:
                for i in idx:
                    if level == 0 and self.shards > 1 and i % self.shards != shard:
                        continue
                    if time.time() > deadline:
                        st.capped = True
                        return
                    try:
                        s = _guard(self._build, hist)
                        _guard(self.ops[i][1], s)
                        k = _guard(self.canon, s)
                    except Skip:
                        st.skipped += 1
                        continue
                    except Violation as v:
                        report(self.name, dict(history=[self.ops[j][0] for j in hist + (i,)]), v)
                        continue
                    st.transitions += 1
                    st.outcomes.add(digest((self.name, k)))
                    if len(hist) and not getattr(self, "_checked", False):
                        self._checked = True
                        again = self.canon(self._build(hist))
                        if again != key:
                            raise Divergence(f"{self.name}: replaying {hist} reaches another state")
                    if level + 1 == self.depth:
                        st.executions += 1
                        if len(st.samples) < 1 and st.executions > 5:
                            st.samples.append(dict(job=self.name, history=[self.ops[j][0] for j in hist + (i,)]))
                    if not self.dedupe or k not in seen:
                        seen.add(k)
                        st.states += 1
                        st.shape[f"{self.name} depth {level + 1}"] = st.shape.get(f"{self.name} depth {level + 1}", 0) + 1
                        nxt.append((hist + (i,), k))
                    elif level + 1 < self.depth:
                        st.executions += 1
            frontier = nxt

    def replay(self, case):
        names = [o[0] for o in self.ops]
        s = self.make()
        for n in case["history"]:
            _guard(self.ops[names.index(n)][1], s)
        return self.canon(s)


def known_findings(pid):
    out = []
    path = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("fixed:") and not line.startswith("#"):
                d = json.loads(line)
                if d["property"] == pid:
                    out.append(d)
    return out


def _worker(modname, tier, todo, conn, deadline, maxv):
    """todo: list of (job index, shard)"""
    st = Stats()
    viol = []

    class Enough(Exception):
        pass

    def report(job, case, v):
        viol.append(dict(job=job, case=case, msg=v.msg, key=v.key))
        if len(viol) >= maxv:
            raise Enough()
    err = None
    try:
        jobs = importlib.import_module(modname).jobs(tier)
        for ji, shard in todo:
            jobs[ji].run(shard, st, report, deadline)
    except Enough:
        st.capped = True
    except BaseException as e:  # noqa
        err = describe_error(e) + "\n" + traceback.format_exc()
    conn.send((st, viol, err))
    conn.close()


def run_check(pid, tier, seed, level="model_checking"):
    t0 = time.time()
    from mc import env
    env.load_pysc()
    import logging
    modname = f"mc.checks.{pid.lower()}"
    mod = importlib.import_module(modname)
    jobs = mod.jobs(tier)
    cap = getattr(mod, "CAP", {}).get(tier, 420 if tier == "quick" else 3000)
    deadline = t0 + cap
    ncpu = min(8, os.cpu_count() or 1)
    units = [(ji, sh) for ji, j in enumerate(jobs) for sh in range(j.shards)]
    lots = [units[i::ncpu] for i in range(ncpu)]
    lots = [x for x in lots if x]
    stats, viols, errors = Stats(), [], []
    known = known_findings(pid)
    procs = []
    ctx = mp.get_context("fork")
    for lot in lots:
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(modname, tier, lot, b, deadline, 200 if known else 25))
        p.start()
        b.close()
        procs.append((p, a))
    for p, a in procs:
        try:
            st, v, err = a.recv()
            stats.merge(st)
            viols += v
            if err:
                errors.append(err)
        except EOFError:
            errors.append("worker died")
        p.join()
    hit = {}
    new = []
    for v in viols:
        k = next((k for k in known if v["key"] is not None and k["key"] == v["key"]), None)
        if k:
            hit[k["key"]] = k
        else:
            new.append(v)
    for k in known:
        if k["key"] in hit:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    rc = 0
    new.sort(key=lambda v: len(json.dumps(v["case"])))
    if new:
        rc = 1
        v = new[0]
        rdir = os.path.join(ROOT, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{pid}-{digest((v['job'], v['case']))}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, tier=tier, **v), f, indent=1)
        print(f"{len(new)} violating executions; simplest: job={v['job']} case={json.dumps(v['case'])[:1500]}")
        print("  " + v["msg"][:3000])
        print(f"VIOLATION property={pid} replay={path}")
    elif errors:
        rc = 2
    for e in errors[:2]:
        print("CHECK ERROR: " + e, file=sys.stderr)
    n_out = len(stats.outcomes)
    cov = dict(
        states=stats.states if stats.states else n_out,
        transitions=stats.transitions,
        traces_validated_against_impl=stats.executions,
        evaluations=stats.executions,
        distinct_nontrivial=n_out,
        rule=getattr(mod, "RULE", (mod.__doc__ or "").strip()),
        exhaustive=not stats.capped and not errors and not new,
        samples=stats.samples[:6],
        jobs=[j.name for j in jobs],
        executions_by_shape={k: stats.shape[k] for k in sorted(stats.shape)[:60]},
        skipped_not_enabled=stats.skipped,
        known_findings_seen=sorted(hit),
    )
    evd = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
               assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    evdir = os.environ.get("MC_EVID", os.path.join(ROOT, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{pid}.json"), "w") as f:
        json.dump(evd, f, indent=1)
    print(f"{pid} {tier}: executions={stats.executions} states={cov['states']} transitions={stats.transitions} "
          f"distinct_outcomes={n_out} exhaustive={cov['exhaustive']} wall={evd['wall_s']}s rc={rc}")
    return rc


def replay(path):
    from mc import env
    env.load_pysc()
    d = json.load(open(path))
    mod = importlib.import_module(f"mc.checks.{d['property'].lower()}")
    job = next(j for j in mod.jobs(d["tier"]) if j.name == d["job"])
    try:
        job.replay(d["case"])
    except Violation as v:
        print(v.msg)
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("holds on this case")
    return 0
