"""Bounded-exhaustive explorer.

A check is a list of *spaces*.  A space is a finite, deterministically ordered
set of items (documents built step by step, call histories, schedules, fault
patterns ...) together with a judge that executes the real code on the item and
compares what happened with the reference model / invariant.  Every item of
every space is executed; nothing is sampled.  Items are numbered in generation
order (shortest first), so the reported counterexample is a minimal one.

Work is split over processes by item number (item i belongs to worker i % K),
which changes neither the set of items explored nor the verdict.
"""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

BITS = 1 << 20          # bitmap used to lower-bound the number of distinct outcomes


class Ctx:
    """Given to a judge: counters measured on this run."""

    def __init__(self):
        self.runs = 0           # executions of the real code
        self.nontrivial = 0     # items whose oracle had something to compare
        self.bitmap = bytearray(BITS // 8)
        self.extra = collections.Counter()

    def outcome(self, obj):
        h = hash(obj if isinstance(obj, str) else repr(obj)) & (BITS - 1)
        self.bitmap[h >> 3] |= 1 << (h & 7)


class Bad(Exception):
    """Raised by a judge: the property does not hold on this item."""

    def __init__(self, what, finding=None, **data):
        super().__init__(what)
        self.what = what
        self.finding = finding   # id of a listed known finding this matches
        self.data = data


class Space:
    """name: label; items: callable -> iterable of items; judge(item, ctx)."""

    def __init__(self, name, items, judge, describe=None, rule="", workers=None, horizon=60):
        self.name = name
        self.items = items
        self.judge = judge
        self.describe = describe or (lambda item: item)
        self.rule = rule
        self.workers = workers
        self.horizon = horizon


class CheckError(Exception):
    """The check itself could not do its work: exit status 3, no verdict."""


def _hang(signum, frame):
    raise Bad("no answer within the horizon: the call does not terminate")


def from_repo(e):
    """Did this exception pass through the code under test?"""
    root = os.path.realpath(REPO) + os.sep
    tb = e.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def unreadable(e):
    """Did the judge stumble over what the code under test returned, and not over the surroundings?"""
    if isinstance(e, AttributeError):
        obj = getattr(e, "obj", None)
        kind = obj if isinstance(obj, (type, types.ModuleType)) else type(obj)
        return not (getattr(kind, "__module__", None) or getattr(kind, "__name__", "")).startswith("creole")
    return isinstance(e, (TypeError, ValueError, LookupError, AssertionError, RecursionError)) and not isinstance(e, CheckError)


def words(alphabet, depth, start=0):
    """All words over the alphabet with length start..depth, shortest first."""
    import itertools
    for n in range(start, depth + 1):
        yield from itertools.product(range(len(alphabet)), repeat=n)


def _work(space, k, n, q, max_bad, before):
    try:
        ctx = Ctx()
        bad, states, samples, findings = [], 0, [], {}
        if before:
            before()
        signal.signal(signal.SIGALRM, _hang)
        for i, item in enumerate(space.items()):
            if i % n != k:
                continue
            states += 1
            try:
                signal.setitimer(signal.ITIMER_REAL, space.horizon)
                try:
                    space.judge(item, ctx)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            except Bad as b:
                if b.finding:
                    f = findings.setdefault(b.finding, [0, i, b.what, _js(space.describe(item))])
                    f[0] += 1
                else:
                    bad.append((i, b.what, _js(space.describe(item)), _js(b.data)))
                    if len(bad) >= max_bad:
                        break
            except Exception as e:
                if from_repo(e):
                    what = "the code under test raised %s: %s"
                elif unreadable(e):
                    what = "the result can not be read: %s: %s"
                else:
                    raise
                bad.append((i, what % (type(e).__name__, str(e)[:300]),
                            _js(space.describe(item)), {}))
                if len(bad) >= max_bad:
                    break
            if states in (1, 2, 7, 50, 400):
                samples.append((i, _js(space.describe(item))))
        q.put((k, states, ctx.runs, ctx.nontrivial, bytes(ctx.bitmap), dict(ctx.extra), bad, samples, findings, None))
    except BaseException:
        q.put((k, 0, 0, 0, b"", {}, [], [], {}, traceback.format_exc()))


def _js(o):
    try:
        return json.loads(json.dumps(o, default=repr))
    except Exception:
        return repr(o)


def run_space(space, workers, max_bad=5, before=None):
    workers = space.workers or workers
    t0 = time.time()
    ctxm = mp.get_context("fork")
    q = ctxm.Queue()
    procs = [ctxm.Process(target=_work, args=(space, k, workers, q, max_bad, before), daemon=False)
             for k in range(workers)]
    for p in procs:
        p.start()
    res = []
    pending = set(range(workers))
    while pending:
        try:
            r = q.get(timeout=5)
        except Exception:
            dead = [k for k in pending if not procs[k].is_alive()]
            if dead:
                try:
                    r = q.get(timeout=5)
                except Exception:
                    raise CheckError("explorer worker %s of space %r died without an answer" % (dead, space.name))
            else:
                continue
        pending.discard(r[0])
        res.append(r)
    for p in procs:
        p.join()
    errors = [r[9] for r in res if r[9]]
    if errors:
        sys.stderr.write(errors[0])
        raise CheckError("the check itself failed in space %r" % space.name)
    bitmap = 0
    extra = collections.Counter()
    findings = {}
    for r in res:
        bitmap |= int.from_bytes(r[4], "little")
        extra.update(r[5])
        for fid, f in r[8].items():
            if fid not in findings:
                findings[fid] = list(f)
            else:
                n = findings[fid][0] + f[0]
                if f[1] < findings[fid][1]:
                    findings[fid] = list(f)
                findings[fid][0] = n
    bad = sorted((b for r in res for b in r[6]), key=lambda b: b[0])
    samples = [s for _, s in sorted((s for r in res for s in r[7]), key=lambda s: s[0])]
    return {
        "space": space.name,
        "rule": space.rule,
        "states": sum(r[1] for r in res),
        "runs": sum(r[2] for r in res),
        "nontrivial": sum(r[3] for r in res),
        "distinct_outcomes_at_least": bin(bitmap).count("1"),
        "extra": dict(extra),
        "bad": bad,
        "samples": samples[:3] + samples[-2:],
        "findings": findings,
        "wall_s": round(time.time() - t0, 2),
    }


def load_findings():
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            return {e["id"]: e for e in json.load(f)["findings"]}
    except FileNotFoundError:
        return {}


def main(prop, build_spaces, level="model_checking", assumptions=(), before=None):
    """Run every space; write the evidence; print the verdict; return the exit code."""
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    workers = int(os.environ.get("VERIF_WORKERS", "0") or 0) or min(8, os.cpu_count() or 1)
    only = os.environ.get("VERIF_SPACE")
    replay = os.environ.get("VERIF_REPLAY")
    t0 = time.time()
    known = load_findings()
    spaces = build_spaces(tier)
    if replay:
        return do_replay(replay, spaces, before)
    results = []
    for sp in spaces:
        if only and sp.name != only:
            continue
        r = run_space(sp, workers, before=before)
        results.append(r)
        print("%s %-34s states=%-9d runs=%-9d nontrivial=%-9d outcomes>=%-7d bad=%d  %.1fs"
              % (prop, r["space"], r["states"], r["runs"], r["nontrivial"],
                 r["distinct_outcomes_at_least"], len(r["bad"]), r["wall_s"]), flush=True)
        if r["states"] == 0 or r["runs"] == 0 and not r["bad"]:
            raise CheckError("space %r explored nothing" % sp.name)
    nbad = 0
    lines = []
    for r in results:
        for fid, (count, idx, what, item) in sorted(r["findings"].items()):
            e = known.get(fid)
            if e is None or e["property"] != prop:
                # judge named a finding that is not in the committed file
                r["bad"].append((idx, what, item, {}))
            else:
                lines.append("KNOWN-FINDING: property=%s %s [%s; %d states of space %s, first: %s]"
                             % (prop, e["what"], fid, count, r["space"], json.dumps(item)[:200]))
        r["bad"].sort(key=lambda b: b[0])
        for idx, what, item, data in r["bad"][:3]:
            nbad += 1
            rid = hashlib.sha1(json.dumps([prop, r["space"], idx, item], default=repr).encode()).hexdigest()[:10]
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s.json" % (prop, rid))
            with open(path, "w") as f:
                json.dump({"property": prop, "space": r["space"], "tier": tier, "index": idx, "item": item,
                           "what": what, "data": data,
                           "replay": "cd %s && VERIF_TIER=%s ./check %s --replay %s" % (VERIF, tier, prop, path)},
                          f, indent=1)
            lines.append("  space=%s item #%d %s\n  %s" % (r["space"], idx, json.dumps(item), what))
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        nbad += max(0, len(r["bad"]) - 3)
    for ln in lines:
        print(ln)
    tot = lambda k: sum(r[k] for r in results)
    cov = {
        "states": tot("states"),
        # every state but the initial one of a space is entered by exactly one building step
        "transitions": max(0, tot("states") - len(results)) + sum(r["extra"].get("transitions", 0) for r in results),
        "traces_validated_against_impl": tot("nontrivial"),
        "evaluations": tot("runs"),
        "distinct_nontrivial": tot("distinct_outcomes_at_least"),
        "rule": "every item of each listed space is executed on the real code; non-trivial = distinct observed "
                "outcome (lower bound, bitmap count)",
        "exhaustive": not only,
        "spaces": [{k: v for k, v in r.items() if k not in ("bad", "findings")} for r in results],
        "samples": [s for r in results for s in r["samples"]][:12] or ["-"],
        "known_findings_seen": sorted({f for r in results for f in r["findings"]}),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": nbad}
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s: %s  states=%d runs=%d wall=%.1fs tier=%s"
          % (prop, "VIOLATED" if nbad else "held on everything explored", cov["states"], cov["evaluations"],
             ev["wall_s"], tier))
    return 1 if nbad else 0


def do_replay(path, spaces, before):
    with open(path) as f:
        rec = json.load(f)
    if before:
        before()
    for sp in spaces:
        if sp.name != rec["space"]:
            continue
        for i, item in enumerate(sp.items()):
            if i == rec["index"]:
                print("item:", json.dumps(_js(sp.describe(item))))
                try:
                    sp.judge(item, Ctx())
                except Bad as b:
                    print("VIOLATED:", b.what)
                    print("VIOLATION property=%s replay=%s" % (rec["property"], path))
                    return 1
                print("holds")
                return 0
    raise CheckError("no such item: %s" % path)
