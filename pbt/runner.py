"""Runs the sub-checks of one property over generated cases in forked workers.

Exit codes: 0 held on everything explored; 1 + VIOLATION line; 2 harness error.
"""
import hashlib
import importlib
import mmap
import struct
import json
import os
import signal
import sys
import tempfile
import shutil
import time
import traceback
import warnings

from .engine import (CaseEndless, CaseTimeout, Data, Inconclusive, Stop, Violation, case_rng,
                     shrink)

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CAP_S = {"quick": 300, "thorough": 1500}  # wall clock: inconclusive (the machine may be busy)
CUR = {"tier": "quick"}
CASE_CPU_S = {"quick": 150, "thorough": 1200}  # processor time of one case: it does not terminate
TIER_CAP_S = {"quick": 420, "thorough": 3000}


class Sub:
    """One sub-check: ``fn(d)`` runs a single generated case."""

    def __init__(self, name, fn, quick, thorough=None, rule=""):
        self.name, self.fn = name, fn
        self.n = {"quick": quick, "thorough": thorough or quick * 20}
        self.rule = rule


def _jsonable(x, depth=0):
    import numpy as np

    if depth > 6:
        return repr(x)[:300]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, np.ndarray):
        if x.size > 64:
            return "array%s %s %s..." % (x.shape, x.dtype, x.ravel()[:16].tolist())
        return {"array": x.tolist(), "dtype": str(x.dtype)}
    if isinstance(x, np.generic):
        return x.item() if not np.iscomplexobj(x) else repr(x)
    if isinstance(x, (list, tuple)):
        return [_jsonable(v, depth + 1) for v in x]
    if isinstance(x, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in x.items()}
    return repr(x)[:300]


def _alarm(signum, frame):
    raise CaseTimeout()


def _prof(signum, frame):
    raise CaseEndless()


def run_case(sub, data):
    """-> (verdict, message); verdict in ok / skip / inconclusive / fail."""
    import numpy as np

    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_CAP_S[CUR["tier"]])
    signal.signal(signal.SIGPROF, _prof)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S[CUR["tier"]])
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            sub.fn(data)
        return "ok", None
    except Stop:
        return "skip", None
    except Inconclusive as e:
        return "inconclusive", str(e)
    except CaseEndless:
        return "fail", "no result after %d s of processor time (cases take seconds at most)" % CASE_CPU_S[CUR["tier"]]
    except CaseTimeout:
        return "inconclusive", "case wall-clock cap"
    except MemoryError:
        return "inconclusive", "memory"
    except Violation as e:
        return "fail", str(e)
    except Exception as e:  # the code under test raised on a valid input
        tb = traceback.format_exc().splitlines()
        return "fail", "unexpected %s: %s\n%s" % (
            type(e).__name__, e, "\n".join(tb[-14:]))
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)


def _worker(prop, subs, tier, seed, w, nw, deadline, path, stopfile, mm):
    res = {"subs": {}, "violation": None, "harness_error": None}
    try:
        for si, sub in enumerate(subs):
            st = {"evaluations": 0, "nontrivial_keys": [], "labels": {}, "skipped": 0,
                  "inconclusive": 0, "inconclusive_why": {}, "samples": [], "cut": 0}
            res["subs"][sub.name] = st
            keys = set()
            for i in range(w, sub.n[tier], nw):
                if time.time() > deadline or os.path.exists(stopfile):
                    st["cut"] += 1
                    continue
                mm[16 * w:16 * w + 16] = struct.pack("qq", si, i)
                data = Data(rng=case_rng(seed, prop, sub.name, i))
                c0 = time.process_time()
                verdict, msg = run_case(sub, data)
                st["slowest"] = max(st.get("slowest", 0.0), round(time.process_time() - c0, 2))
                if verdict == "skip":
                    st["skipped"] += 1
                    continue
                st["evaluations"] += 1
                for lab in set(data.labels):
                    st["labels"][lab] = st["labels"].get(lab, 0) + 1
                if verdict == "inconclusive":
                    st["inconclusive"] += 1
                    st["inconclusive_why"][msg] = st["inconclusive_why"].get(msg, 0) + 1
                    continue
                if data.nontrivial_flag:
                    k = data.key if data.key is not None else tuple(data.choices)
                    keys.add(hashlib.sha1(repr(k).encode()).hexdigest()[:12])
                if (verdict == "ok" and len(st["samples"]) < 1 and data.nontrivial_flag
                        and data.notes):
                    st["samples"].append(
                        {"sub": sub.name, "index": i,
                         "case": {k: _jsonable(v) for k, v in data.notes[:8]}})
                if verdict == "fail":
                    if not os.environ.get("VERIF_ALL"):
                        with open(stopfile, "w"):
                            pass
                    t_end = time.time() + (30 if tier == "quick" else 120)
                    if os.environ.get("VERIF_ALL"):
                        t_end = time.time() + float(os.environ["VERIF_ALL"])
                    if os.environ.get("VERIF_SHRINK"):
                        t_end = time.time() + float(os.environ["VERIF_SHRINK"])

                    def run(cand):
                        d = Data(prefix=cand)
                        v, _ = run_case(sub, d)
                        return v == "fail", d.choices

                    def budget():
                        return 10**9 if time.time() < t_end else 0

                    best = shrink(run, data.choices, budget)
                    d = Data(prefix=best)
                    v, m = run_case(sub, d)
                    if v != "fail":
                        best, d, m = data.choices, data, msg
                    res["violation"] = {
                        "property": prop, "sub": sub.name, "index": i, "seed": seed,
                        "choices": best, "message": m, "original_message": msg,
                        "case": {k: _jsonable(x) for k, x in d.notes}}
                    st["nontrivial_keys"] = sorted(keys)
                    if os.environ.get("VERIF_ALL"):
                        sig = sub.name + "|" + _sig(m)
                        prev = res.setdefault("all", {}).get(sig)
                        if prev is None or len(best) < len(prev["choices"]):
                            res["all"][sig] = res["violation"]
                        continue
                    _dump(res, path)
                    return
            st["nontrivial_keys"] = sorted(keys)
    except BaseException as e:  # noqa
        res["harness_error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())
    _dump(res, path)


def _dump(obj, path):
    with open(path, "w") as fh:
        json.dump(obj, fh)


def _sig(m):
    import re
    lines = m.splitlines()
    files = [x for x in lines if "/probnum/" in x]
    return re.sub(r"[0-9.e+-]+", "#", lines[0])[:90] + "|" + (files[-1].strip() if files else "")


def _crashed(prop, sub, seed, i, status):
    """A worker died inside case i: believe it only if the case kills a fresh child."""
    res = {"subs": {}, "violation": None, "harness_error": "worker died: %s" % status}
    pid = os.fork()
    if pid == 0:
        try:
            run_case(sub, Data(rng=case_rng(seed, prop, sub.name, i)))
        finally:
            os._exit(0)
    st = os.waitpid(pid, 0)[1]
    if st != 0 and not (os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGKILL):
        res["harness_error"] = None
        res["violation"] = {
            "property": prop, "sub": sub.name, "index": i, "seed": seed, "choices": [],
            "from_index": True, "case": {},
            "message": "the interpreter died (wait status %s) while running this case; "
                       "e.g. unbounded recursion in the code under test" % st}
    return res


def load(prop):
    mod = importlib.import_module("checks." + prop.lower())
    return mod


def findings(prop):
    p = os.path.join(ROOT, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f["property"] == prop]


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    only = None
    for a in argv[1:]:
        if a.startswith("--tier="):
            tier = a.split("=")[1]
        elif a.startswith("--replay="):
            replay = a.split("=", 1)[1]
        elif a.startswith("--sub="):
            only = a.split("=", 1)[1].split(",")
    CUR["tier"] = tier
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    nw = int(os.environ.get("VERIF_WORKERS", str(os.cpu_count() or 4)))
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    mod = load(prop)
    subs = list(mod.SUBS)
    if only:
        subs = [s for s in subs if s.name in only]
    for s in subs:
        s.n = {k: max(1, int(v * scale)) for k, v in s.n.items()}

    if replay:
        r = json.load(open(replay))
        sub = [s for s in subs if s.name == r["sub"]][0]
        if r.get("from_index"):
            d = Data(rng=case_rng(r["seed"], prop, sub.name, r["index"]))
        else:
            d = Data(prefix=r["choices"])
        v, m = run_case(sub, d)
        for k, x in d.notes:
            print("  %s = %s" % (k, json.dumps(_jsonable(x))))
        print(v, m or "")
        return 1 if v == "fail" else 0

    tmp = tempfile.mkdtemp(prefix="pbt-")
    try:
        stop = os.path.join(tmp, "stop")
        deadline = t0 + TIER_CAP_S[tier]
        pids = []
        mm = mmap.mmap(-1, 16 * nw)
        sys.stdout.flush()
        for w in range(nw):
            path = os.path.join(tmp, "w%d.json" % w)
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    _worker(prop, subs, tier, seed, w, nw, deadline, path, stop, mm)
                    sys.stdout.flush()
                except BaseException:
                    traceback.print_exc()
                    code = 3
                os._exit(code)
            pids.append((pid, path))
        status = [os.waitpid(pid, 0)[1] for pid, _ in pids]
        results = []
        for w, (pid, path) in enumerate(pids):
            if not os.path.exists(path):
                si, i = struct.unpack("qq", mm[16 * w:16 * w + 16])
                results.append(_crashed(prop, subs[si], seed, i, status[w]))
            else:
                with open(path) as fh:
                    results.append(json.load(fh))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    # known findings are replayed on their own specific inputs
    kf = []
    known_fns = getattr(mod, "KNOWN", {})
    for f in findings(prop):
        fn = known_fns.get(f["id"])
        if fn is None:
            continue
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                still = fn()
        except Exception as e:
            still = "raises %s" % type(e).__name__
        if still:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
            kf.append(f["id"])

    errors = [r["harness_error"] for r in results if r["harness_error"]]
    viols = [r["violation"] for r in results if r["violation"]]
    per_sub, ev, nt, samples, labels = {}, 0, 0, [], {}
    for s in subs:
        agg = {"planned": s.n[tier], "evaluations": 0, "skipped": 0, "inconclusive": 0,
               "cut_by_time": 0, "slowest_case_cpu_s": 0.0, "labels": {}, "inconclusive_why": {}}
        keys = set()
        for r in results:
            st = r["subs"].get(s.name)
            if not st:
                continue
            agg["evaluations"] += st["evaluations"]
            agg["skipped"] += st["skipped"]
            agg["inconclusive"] += st["inconclusive"]
            agg["cut_by_time"] += st["cut"]
            agg["slowest_case_cpu_s"] = max(agg["slowest_case_cpu_s"], st.get("slowest", 0.0))
            for k, v in st["labels"].items():
                agg["labels"][k] = agg["labels"].get(k, 0) + v
            for k, v in st["inconclusive_why"].items():
                agg["inconclusive_why"][k] = agg["inconclusive_why"].get(k, 0) + v
            keys |= set(st["nontrivial_keys"])
            if len([x for x in samples if x["sub"] == s.name]) < 1:
                samples += st["samples"][:1]
        agg["distinct_nontrivial"] = len(keys)
        agg["rule"] = s.rule
        per_sub[s.name] = agg
        ev += agg["evaluations"]
        nt += len(keys)
    evid = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": nt,
            "rule": getattr(mod, "RULE", "") + " Sub-checks: " + "; ".join(
                "%s: %s" % (s.name, s.rule) for s in subs),
            "samples": samples or [{"note": "no passing non-trivial case in this run"}],
            "per_subcheck": per_sub, "workers": nw,
            "known_findings_reproduced": kf,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", [
            "numpy/scipy/PyPy are correct", "floating-point comparison within the "
            "stated relative tolerance"]),
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not only or os.environ.get("VERIF_WRITE"):
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as fh:
            json.dump(evid, fh, indent=1)
    for name, a in per_sub.items():
        print("%s/%s: %d cases, %d distinct non-trivial, %d inconclusive, %d skipped, "
              "%d cut" % (prop, name, a["evaluations"], a["distinct_nontrivial"],
                          a["inconclusive"], a["skipped"], a["cut_by_time"]))
        if os.environ.get("VERIF_LABELS"):
            print("   ", dict(sorted(a["labels"].items())), a["inconclusive_why"])
    if os.environ.get("VERIF_ALL"):
        allv = {}
        for r in results:
            for k, v in r.get("all", {}).items():
                if k not in allv or len(v["choices"]) < len(allv[k]["choices"]):
                    allv[k] = v
        for k, v in allv.items():
            print("=" * 78)
            print("[%s] %s" % (v["sub"], v["message"][-1200:]))
            for kk, x in v["case"].items():
                print("   %s = %s" % (kk, json.dumps(x)[:300]))
    if viols:
        v = min(viols, key=lambda v: (v["sub"], len(v["choices"]), v["index"]))
        out = os.path.join(ROOT, "out")
        os.makedirs(out, exist_ok=True)
        h = hashlib.sha1(json.dumps(v["choices"]).encode()).hexdigest()[:10]
        path = os.path.join(out, "%s-%s-%s.json" % (prop, v["sub"], h))
        with open(path, "w") as fh:
            json.dump(v, fh, indent=1)
        print("sub-check %s failed:\n%s" % (v["sub"], v["message"]))
        for k, x in v["case"].items():
            print("  %s = %s" % (k, json.dumps(x)[:600]))
        print("replay with: bash /verif/check.sh %s --replay=%s" % (prop, path))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("HARNESS ERROR:\n" + errors[0], file=sys.stderr)
        return 2
    print("%s: held on %d cases (%d distinct non-trivial) in %.1f s"
          % (prop, ev, nt, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
