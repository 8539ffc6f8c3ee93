"""Runs one property's workloads under its monitors and turns what they saw into a verdict.

A property module (props/cNN.py) provides

    ID, RULE, LEVEL, REQUIRE        REQUIRE: {counter: minimum}; below it the run is inconclusive
    tasks(tier) -> [task dict]      independent units of work, run in worker processes
    cases(task, g) -> (oracle, case) pairs; g is a lib.gen.Gen with its own PRNG
    ORACLES = {name: fn(case, ctx)} fn raises lib.sut.Mismatch on a violation

Verdicts: exit 0 held on what was observed; exit 1 plus a VIOLATION line; exit 2 inconclusive
(a harness error, a watchdog, or a deciding monitor that was hardly ever reached).
"""
import collections
import concurrent.futures
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, "out")
EVIDENCE = os.path.join(HERE, "evidence")
CASE_CPU_S = 90  # CPU time, so a loaded machine cannot trip it; cases take milliseconds
WALL_S = {"quick": 780, "thorough": 3300}
THOROUGH_S = 300  # a thorough run repeats its tasks, with fresh seeds, for this long


class Hang(BaseException):
    pass


def _on_cpu_limit(_sig, _frm):
    raise Hang()


def jsonable(x):
    if isinstance(x, (bytes, bytearray)):
        return {"__bytes__": bytes(x).hex()}
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(jsonable(v) for v in x)
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    return repr(x)


def unjson(x):
    if isinstance(x, dict):
        if set(x) == {"__bytes__"}:
            return bytes.fromhex(x["__bytes__"])
        return {k: unjson(v) for k, v in x.items()}
    if isinstance(x, list):
        return [unjson(v) for v in x]
    return x


def digest(x):
    return hashlib.blake2b(json.dumps(jsonable(x), sort_keys=True).encode(), digest_size=8).digest()


class Ctx:
    """What an oracle may use: counters, scratch space, knowledge of the tier."""

    def __init__(self, tier, scratch):
        self.tier = tier
        self.scratch = scratch
        self.counts = collections.Counter()
        self.seen = collections.defaultdict(set)
        self.known = {}

    def count(self, name, n=1):
        self.counts[name] += n

    def saw(self, name, value):
        s = self.seen[name]
        if len(s) < 100000:
            s.add(value)

    def known_finding(self, key, text):
        self.known[key] = text


# ---------------------------------------------------------------- line coverage of the code under test
class Lines:
    def __init__(self, root):
        self.root = root
        self.hit = set()

    def start(self):
        mon = sys.monitoring
        tool = mon.COVERAGE_ID
        mon.use_tool_id(tool, "verif")
        root, hit, disable = self.root, self.hit, mon.DISABLE

        def line(code, no):
            if code.co_filename.startswith(root):
                hit.add((code.co_filename[len(root):], no))
            return disable

        mon.register_callback(tool, mon.events.LINE, line)
        mon.set_events(tool, mon.events.LINE)


LINES = None


def _init_worker():
    signal.signal(signal.SIGVTALRM, _on_cpu_limit)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))


def run_oracle(mod, oracle, case, ctx):
    """Returns None, or the text of the violation."""
    from lib import sut

    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        mod.ORACLES[oracle](case, ctx)
        return None
    except sut.Mismatch as e:
        return str(e) or "mismatch"
    except Exception as e:
        # an error out of the code under test where none belongs is a violation, one of the harness is not
        if isinstance(e, MemoryError) and not sut.inside():
            raise
        where = sut.frames_in_code_under_test(e.__traceback__)
        if not where and not isinstance(e, MemoryError):
            raise
        return f"unexpected {type(e).__name__}: {e} ({where})"
    except Hang:
        if sut.inside():
            return f"the code under test did not come back within {CASE_CPU_S} s of CPU time"
        raise RuntimeError("the harness ran out of CPU time")
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        sut.reset()


def shrink(mod, oracle, case, ctx, tries=600):
    """ddmin over case['ops'], keeping the violation."""
    budget_s = float(os.environ.get("VERIF_SHRINK_S", "25"))
    key = "ops"
    if not budget_s or not isinstance(case, dict) or not isinstance(case.get(key), list):
        return case
    t0 = time.time()
    ops, n = list(case[key]), 2
    while len(ops) > 1 and tries > 0 and time.time() - t0 < budget_s:
        step = max(1, len(ops) // n)
        for i in range(0, len(ops), step):
            cand = ops[:i] + ops[i + step:]
            tries -= 1
            try:
                bad = run_oracle(mod, oracle, {**case, key: cand}, ctx)
            except Exception:
                bad = None
            if bad:
                ops, n = cand, max(2, n - 1)
                break
            if tries <= 0 or time.time() - t0 > budget_s:
                break
        else:
            if step == 1:
                break
            n = min(len(ops), n * 2)
    return {**case, key: ops}


def run_task(args):
    pid, tier, seed, index, task, root = args
    from lib import gen

    mod = importlib.import_module(f"props.{pid.lower()}")
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-", dir=root)
    ctx = Ctx(tier, scratch)
    res = {"index": index, "n": 0, "hashes": set(), "samples": [], "violation": None, "error": None}
    try:
        g = gen.Gen(random.Random(f"{seed}/{pid}/{tier}/{index}"), tier)
        for oracle, case in mod.cases(task, g):
            res["n"] += 1
            bad = run_oracle(mod, oracle, case, ctx)
            if bad:
                if "did not come back within" not in bad:  # too slow to show again
                    small = shrink(mod, oracle, case, Ctx(tier, scratch))
                    bad2 = run_oracle(mod, oracle, small, Ctx(tier, scratch))
                    if bad2:
                        case, bad = small, bad2
                res["violation"] = {
                    "property": pid, "tier": tier, "seed": seed, "task": jsonable(task),
                    "oracle": oracle, "what": bad, "case": jsonable(case),
                }
                break
            res["hashes"].add(digest((oracle, case)))
            if len(res["samples"]) < 1:
                text = json.dumps(jsonable({"task": task, "oracle": oracle, "case": case}))
                res["samples"].append(text if len(text) < 1500 else text[:1500] + "...")
    except BaseException:
        res["error"] = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        shutil.rmtree(scratch, ignore_errors=True)
    res["counts"] = dict(ctx.counts)
    res["seen"] = {k: v for k, v in ctx.seen.items()}
    res["known"] = ctx.known
    res["lines"] = LINES.hit if LINES else set()
    return res


def known_findings(pid):
    """Lines 'finding: property=ID key=KEY text' of KNOWN_FINDINGS.txt."""
    out = {}
    try:
        with open(os.path.join(HERE, "KNOWN_FINDINGS.txt")) as f:
            for line in f:
                if line.startswith(f"finding: property={pid} key="):
                    key, _, text = line[len(f"finding: property={pid} key="):].strip().partition(" ")
                    out[key] = text
    except FileNotFoundError:
        pass
    return out


def replay(path):
    from lib import sut

    with open(path) as f:
        d = json.load(f)
    mod = importlib.import_module(f"props.{d['property'].lower()}")
    _init_worker()
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        bad = run_oracle(mod, d["oracle"], unjson(d["case"]), Ctx(d["tier"], scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if bad:
        print(bad)
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("the replayed case holds")
    return 0


def main(pid):
    global LINES
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVIDENCE, exist_ok=True)
    os.makedirs(OUT, exist_ok=True)

    from lib import sut

    LINES = Lines(sut.SRC + os.sep)
    LINES.start()
    sut.load()
    mod = importlib.import_module(f"props.{pid.lower()}")
    tasks = mod.tasks(tier)
    rounds = int(os.environ.get("VERIF_ROUNDS", "0")) or getattr(mod, "ROUNDS", 1) if tier == "quick" else None
    budget = float(os.environ.get("VERIF_THOROUGH_S", THOROUGH_S))
    root = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    sut.PYCACHE = os.path.join(root, "pyc")

    results, violation, errors = [], None, []
    workers = int(os.environ.get("VERIF_WORKERS", "0")) or os.cpu_count() or 4
    ctxmp = multiprocessing.get_context("fork")
    pool = concurrent.futures.ProcessPoolExecutor(workers, mp_context=ctxmp, initializer=_init_worker)
    timed_out = stop = False
    done_rounds = 0
    while not stop and (done_rounds < rounds if rounds else (done_rounds == 0 or time.time() - t0 < budget)):
        batch = range(done_rounds, rounds) if rounds else [done_rounds]
        jobs = [(pid, tier, seed, f"{i}" if k == 0 else f"{i}.{k}", t, root) for k in batch for i, t in enumerate(tasks)
                if k == 0 or not t.get("once")]
        done_rounds += len(batch)
        # the longest tasks first, if the module says so
        futs = [pool.submit(run_task, j) for j in sorted(jobs, key=lambda j: -j[4].get("weight", 1))]
        try:
            for fut in concurrent.futures.as_completed(futs, timeout=max(1, WALL_S[tier] - (time.time() - t0))):
                try:
                    r = fut.result()
                except concurrent.futures.process.BrokenProcessPool as e:
                    errors.append(f"worker died: {e}")
                    stop = True
                    break
                results.append(r)
                if r["error"]:
                    errors.append(r["error"])
                    if len(errors) > 3:
                        stop = True
                        break
                if r["violation"]:
                    violation = r["violation"]
                    stop = True
                    break
        except concurrent.futures.TimeoutError:
            timed_out = stop = True
    procs = list((getattr(pool, "_processes", None) or {}).values())
    pool.shutdown(wait=not stop, cancel_futures=True)
    if stop:
        for p in procs:
            try:
                p.kill()
            except Exception:
                pass
        time.sleep(0.2)
    shutil.rmtree(root, ignore_errors=True)

    counts, seen, hashes, lines, known, samples = collections.Counter(), {}, set(), set(), {}, []
    n = 0
    for r in sorted(results, key=lambda r: [int(x) for x in (r["index"] + ".0").split(".")[1::-1]]):
        n += r["n"]
        counts.update(r["counts"])
        for k, v in r["seen"].items():
            seen.setdefault(k, set()).update(v)
        hashes |= r["hashes"]
        lines |= r["lines"]
        known.update(r["known"])
        if len(samples) < 6:
            samples += r["samples"]

    listed = known_findings(pid)
    for key, text in known.items():
        if key not in listed and violation is None:
            violation = {"property": pid, "tier": tier, "seed": seed, "oracle": "known", "case": {},
                         "task": {}, "what": f"unlisted finding {key}: {text}"}

    short = {k: (counts.get(k, 0) + len(seen.get(k, ())), need)
             for k, need in mod.REQUIRE.items() if counts.get(k, 0) + len(seen.get(k, ())) < need}

    by_file = collections.Counter(f for f, _ in lines)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len(hashes),
            "rule": mod.RULE,
            "samples": samples,
            "tasks": len(results),
            "rounds": done_rounds,
            "observed": {**dict(sorted(counts.items())),
                         **{f"distinct_{k}": len(v) for k, v in sorted(seen.items())}},
            "source_lines_executed": dict(sorted(by_file.items())),
            "known_findings_seen": sorted(known),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    with open(os.path.join(EVIDENCE, f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    for key in known:
        if key in listed:
            print(f"KNOWN-FINDING: property={pid} {listed[key]}")
    if violation:
        name = hashlib.blake2b(json.dumps(violation, sort_keys=True).encode(), digest_size=5).hexdigest()
        path = os.path.join(OUT, f"{pid}-{name}.json")
        with open(path, "w") as f:
            json.dump(violation, f, indent=1)
        print(violation["what"][:2000])
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        code = 1
    elif errors or timed_out:
        print(f"INCONCLUSIVE property={pid}: " + ("wall clock watchdog" if timed_out else errors[0]), flush=True)
        code = 2
    elif short:
        print(f"INCONCLUSIVE property={pid}: too little was observed: {short}", flush=True)
        code = 2
    else:
        print(f"held property={pid} tier={tier} seed={seed}: {n} executions, {len(hashes)} distinct, "
              f"{evidence['wall_s']} s; observed {json.dumps(evidence['coverage']['observed'])}", flush=True)
        code = 0
    sys.stdout.flush()
    os._exit(code)
