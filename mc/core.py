"""Explorer plumbing: exhaustive enumeration of cases over worker processes, evidence, violations.

A check module (checks/cNN.py) provides

    PID, LEVEL, RULE, ASSUMPTIONS
    cases(tier) -> iterable of JSON-serialisable case descriptions, simplest first
    run_case(case, out) -> None        explores every execution below one case, on the real code

``out`` is an Out: it counts states, transitions and traces, and collects failures.  The enumeration is
never cut short on a tree that satisfies the property: every case is run to the end.  (After a violation
has been found the remaining cases may be skipped; that is reported.)
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_SECONDS = 300          # watchdog for a single case (a case normally takes well under 10 s)
AFTERWARDS = 120            # so many seconds after the first violation the rest is skipped
MEMORY = 6 << 30             # address space of a worker
MAX_FAILS = 40              # after this many failing cases the rest is skipped


class Watchdog(Exception):
    pass


class Out:
    """What the exploration of one case produced."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.fails = []
        self.notes = {}
        self.sample = None

    def fail(self, key, msg, **ctx):
        """key: stable identification of what fails; msg: one line; ctx: what is needed to replay."""
        if len(self.fails) < 5:
            self.fails.append({"key": key, "msg": msg, "ctx": ctx})

    def note(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    def outcome(self, *things):
        h = hashlib.blake2b(repr(things).encode(), digest_size=8).hexdigest()
        self.outcomes.add(h)

    def dump(self):
        return dict(states=self.states, transitions=self.transitions, traces=self.traces,
                    outcomes=self.outcomes, fails=self.fails, notes=self.notes, sample=self.sample)


def load_repo():
    """Import pykalman from REPO's working tree, never from anywhere else."""
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import pykalman
    where = os.path.realpath(pykalman.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f"pykalman imported from {where}, not {REPO}")
    import pykalman.datasets
    import pykalman.sqrt
    return pykalman


def _alarm(sig, frm):
    raise Watchdog()


_MOD = None


def _init(modname):
    global _MOD
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    load_repo()
    _MOD = importlib.import_module(modname)
    signal.signal(signal.SIGALRM, _alarm)


def _one(arg):
    i, case = arg
    out = Out()
    t0 = time.time()
    signal.alarm(CASE_SECONDS)
    try:
        _MOD.run_case(case, out)
    except Watchdog:
        out.fail("no-termination", f"case did not terminate within {CASE_SECONDS} s")
    except MemoryError:
        signal.alarm(0)
        out.fail("memory", f"case needed more than {MEMORY >> 30} GB")
    except Exception:
        # run_case guards the calls into pykalman itself; anything else is an error of the harness
        signal.alarm(0)
        return i, case, None, traceback.format_exc()
    finally:
        signal.alarm(0)
    d = out.dump()
    d["secs"] = time.time() - t0
    return i, case, d, None


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    res = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=" + pid + " "):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" ")
                if key.startswith("key="):
                    res[key[4:]] = what
    return res


def main(modname, argv=None):
    argv = sys.argv[1:] if argv is None else argv
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    workers = int(os.environ.get("VERIF_JOBS", "0") or 0) or min(8, os.cpu_count() or 1)
    it = iter(argv)
    for a in it:
        if a == "--replay":
            replay = next(it)
        elif a in ("quick", "thorough"):
            tier = a
        elif a == "-j1":
            workers = 1
    t0 = time.time()
    _init(modname)
    mod = _MOD
    pid = mod.PID
    if replay:
        rec = json.load(open(replay))
        out = Out()
        mod.run_case(rec["case"], out)
        for f in out.fails:
            print(f"VIOLATION property={pid} replay={replay}")
            print("  ", f["key"], "::", f["msg"])
        print("reproduced" if out.fails else "not reproduced")
        return 1 if out.fails else 0

    cases = list(enumerate(mod.cases(tier)))
    tot = dict(states=0, transitions=0, traces=0)
    outcomes, notes, fails, samples = set(), {}, [], []
    done = skipped = 0
    slowest = (0, None)
    if not cases:
        raise SystemExit("no cases")
    # deterministic interleaving of big and small cases over the workers
    def results():
        if workers == 1:
            for c in cases:
                yield _one(c)
        else:
            ctx = mp.get_context("fork")
            chunk = max(1, min(16, len(cases) // (workers * 16)))
            with ctx.Pool(workers, _limit) as pool:
                for r in pool.imap_unordered(_one, cases, chunksize=chunk):
                    yield r

    harness_error, errors, first = None, 0, None
    known = known_findings(pid)
    for i, case, d, err in results():
        if err is not None:
            harness_error = harness_error or (case, err)
            errors += 1
            if errors > MAX_FAILS:
                break
            continue
        done += 1
        for k in tot:
            tot[k] += d[k]
        outcomes |= d["outcomes"]
        for k, v in d["notes"].items():
            notes[k] = notes.get(k, 0) + v
        if d["secs"] > slowest[0]:
            slowest = (d["secs"], case)
        if d["sample"] is not None:
            samples.append((i, d["sample"]))
        for f in d["fails"]:
            fails.append((i, case, f))
        if first is None and any(f["key"] not in known for f in d["fails"]):
            first = time.time()
        if len({i for i, _, _ in fails}) > MAX_FAILS or first and time.time() - first > AFTERWARDS:
            skipped = len(cases) - done
            break
    if harness_error:
        print("HARNESS ERROR in case", json.dumps(harness_error[0])[:500])
        print(harness_error[1])
        if not fails:
            return 3

    fails.sort(key=lambda x: x[0])
    seen, new = set(), []
    for i, case, f in fails:
        if f["key"] in seen:
            continue
        seen.add(f["key"])
        if f["key"] in known:
            print(f"KNOWN-FINDING: property={pid} {known[f['key']]}")
        else:
            new.append((i, case, f))
    rdir = os.path.join(VERIF, "replays")
    for n, (i, case, f) in enumerate(new[:10]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{pid}-{n}.json")
        with open(path, "w") as fh:
            json.dump(dict(property=pid, case=case, key=f["key"], msg=f["msg"], ctx=f["ctx"],
                           how=f"cd /verif && ./check {pid} --replay {path}"), fh, indent=1, default=str)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"   {f['key']} :: {f['msg']}"[:600])
    samples.sort(key=lambda x: x[0])
    pick = [samples[k][1] for k in sorted({0, len(samples) // 3, 2 * len(samples) // 3, len(samples) - 1})] if samples else []
    wall = time.time() - t0
    cov = dict(
        states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"],
        samples=pick, evaluations=tot["traces"], distinct_nontrivial=len(outcomes), rule=mod.RULE,
        exhaustive=(skipped == 0), cases=len(cases), cases_completed=done, cases_skipped_after_violation=skipped,
        distinct_observed_outcomes=len(outcomes), notes=notes,
        slowest_case_seconds=round(slowest[0], 2), bounds=mod.bounds(tier) if hasattr(mod, "bounds") else {},
    )
    ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=mod.LEVEL,
              coverage=cov, assumptions=list(mod.ASSUMPTIONS), wall_s=round(wall, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write("\n")
    print(f"{pid} {tier}: cases={done}/{len(cases)} states={tot['states']} transitions={tot['transitions']} "
          f"traces={tot['traces']} outcomes={len(outcomes)} violations={len(new)} wall={wall:.1f}s notes={notes}")
    return 1 if new else 0
