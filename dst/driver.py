"""Runs seeds of a property's scenarios, minimises and reports violations, writes evidence."""
import copy
import gc
import importlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback

from . import core
from . import world as _world

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_LIMIT = 120             # wall seconds for one run
MEM_LIMIT = 1200            # MB of a worker, after which a fresh process takes over


# Modules that a property depends on in particular
_LINK = ["m2mmanager", "m2m.wsclient", "m2m.wsclient", "client"]
_CHAN = ["m2m.wsclient", "m2m.wsclient", "m2m.dispatcher", "m2mmanager"]
_FWD = ["portforward", "portforward", "m2m.wsclient", "limiter"]
_TERM = ["m2m.remoteprocess", "m2m.writethread", "m2m.proxy", "m2m.wsclient"]
_DIR = ["remote_directory", "remote_directory", "directory_scanner", "scan_directory",
        "m2m.wsclient"]
_POLL = ["client", "client", "jsonrpc", "tags"]
FOCUS = {
    "C01": _LINK, "C02": _LINK, "C03": _LINK + ["m2m.dispatcher", "m2m.packetbase"],
    "C04": _CHAN + ["m2m.dispatcher"], "C05": _CHAN + ["portforward", "m2m.writethread"],
    "C06": _CHAN + ["portforward", "m2m.fileservice", "m2m.commandservice"],
    "C07": _FWD, "C08": _FWD, "C09": _TERM, "C10": _TERM,
    "C11": ["limiter", "m2mmanager", "portforward", "m2m.fileservice", "m2m.commandservice",
            "m2m.remoteprocess"],
    "C12": ["m2m.fileservice", "m2m.wsclient", "limiter"],
    "C13": ["m2m.commandservice", "m2m.commandservice", "m2m.wsclient"],
    "C14": _DIR[:2], "C15": _DIR[:2], "C16": _DIR, "C17": ["scan_directory", "directory_scanner"],
    "C18": ["directory_scanner", "directory_scanner", "remote_directory", "scan_directory"],
    "C19": _POLL, "C20": _POLL, "C21": _POLL + ["disk_tools"], "C22": ["jsonrpc", "client"],
    "C23": ["clockcheck", "client"], "C24": _POLL, "C25": ["m2m.wsclient"],
    "C26": ["m2mmanager", "m2mmanager", "portforward", "m2m.wsclient"],
    "C27": ["app", "client", "limiter"],
    "C28": ["m2m.wsclient", "m2m.remoteprocess", "portforward", "m2m.fileservice", "m2mmanager",
            "m2m.commandservice", "remote_directory", "directory_scanner", "client"],
}


def gen_strategy(rng, span=6000, prop=None):
    r = rng.random()
    if r < 0.12:
        return {"kind": "rtb"}
    if r < 0.35:
        return {"kind": "pct", "d": rng.choice([1, 2, 3, 5, 8]),
                "span": int(span * rng.choice([0.1, 0.3, 1.0])) + 20,
                "stall": rng.choice([0.3, 0.7, 1.0]),
                "stall_max": int(rng.choice([1e6, 1e8, 2e9]))}
    if r < 0.6:
        # at a few places of the code, whenever they are passed
        d = {"kind": "site", "stall": rng.choice([0.3, 1.0]),
             "stall_max": int(rng.choice([1e6, 1e8, 2e9, 2e9]))}
        mods = FOCUS.get(prop)
        if mods and r < 0.5:
            d["mod"] = "dataplicity." + rng.choice(mods)
            d["n"] = rng.choice([1, 1, 2, 3])
        else:
            d["part"] = rng.choice([0.003, 0.01, 0.01, 0.03])
        return d
    return {"kind": "rand", "mean": rng.choice([2, 4, 8, 20, 60, 200]),
            "stall": rng.choice([0.0, 0.02, 0.1, 0.3]),
            "stall_max": int(rng.choice([1e6, 3e7, 3e8, 2e9]))}


class Result(object):
    pass


def make_case(prop, base, i):
    """The case of seed number i: everything follows from (base, prop, i)."""
    from . import scenarios
    seed = "%s/%s/%d" % (base, prop, i)
    rng = random.Random(seed)
    choices = scenarios.FOR[prop]
    tot = sum(w for _, w in choices)
    x = rng.random() * tot
    for name, w in choices:
        x -= w
        if x <= 0:
            break
    cls = scenarios.get(name)
    plan = cls.gen(rng, prop)
    plan.setdefault("strategy", gen_strategy(rng, cls.span, prop))
    plan = json.loads(json.dumps(plan))
    return dict(prop=prop, scen=name, seed=seed, plan=plan, streams=None)


def run_case(case, verbose=False, trace_limit=4000):
    from . import scenarios
    cls = scenarios.get(case["scen"])
    plan = copy.deepcopy(case["plan"])
    sim = core.Sim(seed=case["seed"], strategy=plan.get("strategy"), replay=case.get("streams"),
                   verbose=verbose, trace_limit=trace_limit)
    sim.activate()
    r = Result()
    t0 = time.time()
    sc = None
    try:
        sc = cls(sim, plan, case["prop"])
        sc.drive()
    except core.Livelock:
        pass
    except core.HarnessError as e:
        sim.fail_harness("harness: %s" % e)
    except core.SimDead as e:
        sim.fail_harness("dead: %s" % e)
    except Exception:
        sim.fail_harness("scenario: " + traceback.format_exc())
    finally:
        sim.finish()
    r.sim = sim
    r.scen = sc
    r.wall = time.time() - t0
    r.violations = [v for v in sim.violations if v[0] in (case["prop"], "*")]
    r.others = [v for v in sim.violations if v[0] not in (case["prop"], "*")]
    r.hash = "%08x-%d" % (sim.h, sim.nev)
    r.bad = list(sim.gaps) + list(sim.harness_errors)
    return r


# ------------------------------------------------------------------ known findings
def known_findings():
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line.startswith("known:"):
            continue
        d = {}
        parts = line[6:].split()
        rest = []
        for p in parts:
            if p.startswith("property=") and "property" not in d:
                d["property"] = p[9:]
            elif p.startswith("key=") and "key" not in d:
                d["key"] = p[4:]
            else:
                rest.append(p)
        d["text"] = " ".join(rest)
        out.append(d)
    return out


# ------------------------------------------------------------------ minimise
def fails(case, key, deadline):
    if time.time() > deadline:
        return None
    r = run_case(case)
    gc.collect()
    if r.bad:
        return None
    for v in r.violations:
        if v[1] == key:
            return r
    return None


def minimise(case, key, budget):
    """Smaller plan and choice streams with the same violation key."""
    deadline = time.time() + budget
    best = copy.deepcopy(case)
    r = fails(best, key, deadline)
    if r is None:
        return case, None
    best["streams"] = r.sim.recording()
    r2 = fails(best, key, deadline)
    if r2 is None:
        # a recording must replay; keep the seed then
        return case, r
    runs = 0
    # 1. drop operations
    ops = best["plan"].get("ops")
    if ops:
        n = 2
        while len(ops) >= 1 and time.time() < deadline:
            size = max(1, len(ops) // n)
            changed = False
            i = 0
            while i < len(ops) and time.time() < deadline:
                c = copy.deepcopy(best)
                c["plan"]["ops"] = ops[:i] + ops[i + size:]
                runs += 1
                if fails(c, key, deadline) is not None:
                    best = c
                    ops = c["plan"]["ops"]
                    changed = True
                else:
                    i += size
            if size == 1 and not changed:
                break
            if size == 1:
                n = len(ops) or 1
                if not changed:
                    break
                continue
            n = min(n * 2, len(ops) or 1)
    # 2. benign choices
    for name in sorted(best["streams"], key=lambda k: -len(best["streams"][k])):
        if time.time() > deadline:
            break
        c = copy.deepcopy(best)
        del c["streams"][name]
        runs += 1
        if fails(c, key, deadline) is not None:
            best = c
            continue
        # keep only a prefix
        vals = best["streams"][name]
        lo, hi = 0, len(vals)
        while lo < hi and time.time() < deadline:
            mid = (lo + hi) // 2
            c = copy.deepcopy(best)
            c["streams"][name] = vals[:mid]
            runs += 1
            if fails(c, key, deadline) is not None:
                hi = mid
                best = c
            else:
                lo = mid + 1
        vals = list(best["streams"][name])
        # zero blocks
        size = max(1, len(vals) // 4)
        while size >= 1 and time.time() < deadline:
            for i in range(0, len(vals), size):
                if time.time() > deadline:
                    break
                if not any(vals[i:i + size]):
                    continue
                c = copy.deepcopy(best)
                v = list(vals)
                v[i:i + size] = [0] * len(v[i:i + size])
                c["streams"][name] = v
                runs += 1
                if fails(c, key, deadline) is not None:
                    best = c
                    vals = v
            if size == 1 or len(vals) > 600 and size <= len(vals) // 64:
                break
            size //= 4
            size = max(size, 1)
    r = fails(best, key, time.time() + 60)
    return best, r


def write_replay(case, key, r, path, first):
    v = [x for x in r.violations if x[1] == key][0]
    vc = dict(case)
    rr = run_case(vc, verbose=True, trace_limit=3000)
    d = dict(format=1, property=case["prop"], scenario=case["scen"], seed=case["seed"],
             plan=case["plan"], streams=case["streams"],
             violation=dict(key=key, message=v[2], sim_time_s=round((v[3] - 1000 * core.SEC) / 1e9,
                                                                     6)),
             hash=r.hash, original_seed=first, faults=r.sim.faults, switches=r.sim.nswitch,
             trace=rr.sim.trace[-400:])
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(d, f, indent=1)
    return d


def replay(path, verbose=False):
    d = json.load(open(path))
    case = dict(prop=d["property"], scen=d["scenario"], seed=d["seed"], plan=d["plan"],
                streams=d["streams"])
    r = run_case(case, verbose=verbose)
    ok = any(v[1] == d["violation"]["key"] for v in r.violations)
    if verbose:
        print("\n".join(r.sim.trace))
    for b in r.bad:
        print("HARNESS: " + b)
    print("replay %s: %s, hash %s (recorded %s): %s" % (
        path, "violation reproduced" if ok else "no violation", r.hash, d["hash"],
        "identical execution" if r.hash == d["hash"] else "different execution"))
    for v in r.violations:
        print("  %s %s at %.3fs: %s" % (v[0], v[1], (v[3] - 1000 * core.SEC) / 1e9, v[2]))
    return 1 if ok and r.hash == d["hash"] else 1 if ok else 0


# ------------------------------------------------------------------ workers
def rss_mb():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4096 >> 20


def worker(prop, base, start, step, deadline, min_runs, hard, wfd, n=0):
    """Runs seeds start, start+step, ...; one JSON line per run. Ends early, asking to be
    replaced, when its memory has grown."""
    gc.disable()
    out = os.fdopen(wfd, "w", 1)
    i = start
    devnull = os.open(os.devnull, os.O_WRONLY)
    err = os.dup(2)
    while True:
        now = time.time()
        if now > hard or (now > deadline and n >= min_runs):
            out.write('{"end": true}\n')
            break
        out.write('{"start": %d}\n' % i)
        signal.alarm(RUN_LIMIT)
        case = make_case(prop, base, i)
        r = run_case(case)
        signal.alarm(0)
        s = r.sim
        out.write(json.dumps(dict(
            i=i, scen=case["scen"], h=r.hash, il=s.ilh, wall=r.wall, st=s.t, sw=s.nswitch,
            pre=s.npreempt, ev=s.events_run, nops=len(case["plan"].get("ops", ())), faults=s.faults,
            probes={k: v for k, v in s.probes.items() if not k.startswith("log_")},
            strat=s.strategy["kind"], inc=r.scen.incarnation if r.scen is not None else 0,
            v=[[v[0], v[1], v[2], v[3]] for v in r.violations],
            o=sorted(set((v[0], v[1]) for v in r.others)), bad=r.bad[:3])) + "\n")
        n += 1
        i += step
        del r, s
        if n % 10 == 0 or rss_mb() > MEM_LIMIT:
            os.dup2(devnull, 2)
            try:
                gc.collect()
            finally:
                os.dup2(err, 2)
            if rss_mb() > MEM_LIMIT:
                out.write('{"again": %d, "n": %d}\n' % (i, n))
                break
    out.close()


def _alarm(signum, frame):
    os._exit(77)


def explore(prop, base, seconds, min_runs, nworkers=8, hard=600, on_line=None, stop_on=None):
    """Fork workers; returns list of run records and problems."""
    t0 = time.time()
    kids = {}

    def spawn(first, n):
        rfd, wfd = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rfd)
                for fd in kids:
                    os.close(fd)
                signal.signal(signal.SIGALRM, _alarm)
                worker(prop, base, first, nworkers, t0 + seconds,
                       (min_runs + nworkers - 1) // nworkers, t0 + hard, wfd, n)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wfd)
        kids[rfd] = dict(pid=pid, buf=b"", cur=None, done=False, again=None)

    for w in range(nworkers):
        spawn(w, 0)
    recs = []
    problems = []
    stop = False
    while kids:
        rl, _, _ = select.select(list(kids), [], [], 1.0)
        for fd in rl:
            k = kids[fd]
            data = os.read(fd, 1 << 16)
            if not data:
                os.close(fd)
                _, st = os.waitpid(k["pid"], 0)
                if k["again"] is not None and not stop:
                    del kids[fd]
                    spawn(*k["again"])
                    continue
                if not k["done"] and not stop:
                    problems.append("worker ended with status %d during run %s" % (st, k["cur"]))
                del kids[fd]
                continue
            k["buf"] += data
            *lines, k["buf"] = k["buf"].split(b"\n")
            for ln in lines:
                m = json.loads(ln)
                if "start" in m:
                    k["cur"] = m["start"]
                elif "end" in m:
                    k["done"] = True
                elif "again" in m:
                    k["again"] = (m["again"], m["n"])
                else:
                    recs.append(m)
                    if on_line is not None:
                        on_line(m)
                    if stop_on is not None and stop_on(m) and not stop:
                        stop = True
                        for kk in kids.values():
                            try:
                                os.kill(kk["pid"], signal.SIGKILL)
                            except OSError:
                                pass
    return recs, problems, time.time() - t0


def warm(prop, base, n=3):
    for i in range(n):
        run_case(make_case(prop, "warm-%s" % base, i))
    gc.collect()


def merge(ds):
    out = {}
    for d in ds:
        for k, v in d.items():
            out[k] = out.get(k, 0) + v
    return dict(sorted(out.items()))


def check(prop, tier, base, seconds=None):
    from . import scenarios
    t_start = time.time()
    gc.disable()
    if seconds is None:
        seconds = 40 if tier == "quick" else 600
    min_runs = 64 if tier == "quick" else 256
    known = [k for k in known_findings() if k["property"] == prop]
    known_keys = set(k["key"] for k in known)
    warm(prop, base)

    def new(m):
        return not m["bad"] and any(v[1] not in known_keys for v in m["v"])

    recs, problems, wall = explore(prop, base, seconds, min_runs,
                                   hard=300 if tier == "quick" else 3000, stop_on=new)
    hits = [m for m in recs if new(m)]
    bad = [m for m in recs if m["bad"]]
    ev = evidence(prop, tier, base, recs, wall, problems, known)
    code = 0
    replays = []
    if hits:
        m = min(hits, key=lambda m: (m["nops"], m["sw"]))
        key = [v[1] for v in m["v"] if v[1] not in known_keys][0]
        case = make_case(prop, base, m["i"])
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        small, r = minimise(case, key, float(
            os.environ.get("DST_MIN") or (45 if tier == "quick" else 240)))
        if r is None:
            print("HARNESS: violation %s of seed %s did not reproduce" % (key, case["seed"]))
            code = 2
        else:
            path = os.path.join(VERIF, "evidence", "replays", "%s-%s.json" % (prop, tier))
            d = write_replay(small, key, r, path, case["seed"])
            p = subprocess.run([sys.executable, "-m", "dst.driver", "--replay", path], cwd=VERIF,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            same = p.returncode == 1 and b"identical execution" in p.stdout
            print("violation %s (seed %s, %d ops, %d switches): %s" % (
                key, case["seed"], len(small["plan"].get("ops", ())), r.sim.nswitch,
                d["violation"]["message"]))
            print("  at %.3f simulated s; faults %s; replay in a fresh process: %s" % (
                d["violation"]["sim_time_s"], d["faults"],
                "identical" if same else "NOT identical: " + p.stdout.decode()[-300:]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            replays.append(path)
            code = 1
            if not same:
                problems.append("replay differs")
    elif problems or len(bad) > max(2, len(recs) // 50) or (bad and len(bad) == len(recs)) \
            or len(recs) < 8:
        code = 2
    for m in bad[:3]:
        print("INCONCLUSIVE run %d (%s): %s" % (m["i"], m["scen"], m["bad"][0][:600]))
    for pb in problems:
        print("HARNESS: " + pb)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    ev["violations"] = len(hits)
    ev["wall_s"] = round(time.time() - t_start, 2)
    ev["coverage"]["replays"] = replays
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    c = ev["coverage"]
    print("%s %s: %d runs (%d distinct), %.0f simulated s, %d switches, faults: %s; exit %d" % (
        prop, tier, c["evaluations"], c["distinct_nontrivial"], c["simulated_seconds"],
        c["context_switches"], sum(c["faults_injected"].values()), code))
    return code


REAL = ["dataplicity.* (working tree of /repo, every module the running agent loads)",
        "lomond 0.3.3 (installed)", "stdlib threading, subprocess, tempfile, shutil, socket "
        "wrapper, pty-free os.path, json, struct, zlib, six"]
STUB = ["kernel: scheduler, clocks, TCP, DNS, pipes, ptys, processes, signals, files, devices",
        "thread primitives (_thread locks), select.poll, os/_socket system calls",
        "urllib urlopen (an in-process model of the API server)", "m2m server (independent "
        "websocket, deflate and bencode code)", "local TCP servers, shells, commands, tag script",
        "logging, atexit, distro, platform; the command line (app.py) except in C27"]


def evidence(prop, tier, base, recs, wall, problems, known):
    good = [m for m in recs if not m["bad"]]
    nontriv = [m for m in good if m["faults"] or m["pre"] or m["nops"]]
    hs = set((m["h"], m["il"]) for m in nontriv)
    ils = set(m["il"] for m in good)
    st = sum(m["st"] for m in good)
    by = {}
    for m in good:
        by[m["scen"]] = by.get(m["scen"], 0) + 1
    strat = {}
    for m in good:
        strat[m["strat"]] = strat.get(m["strat"], 0) + 1
    samples = []
    for m in sorted(good, key=lambda m: -len(m["faults"]))[:2] + good[:1]:
        c = make_case(prop, base, m["i"])
        samples.append(dict(seed=c["seed"], scenario=c["scen"], plan=_cap(c["plan"]), hash=m["h"],
                            simulated_seconds=round(m["st"], 3), faults=m["faults"],
                            switches=m["sw"]))
    return dict(
        property=prop, tier=tier, seed=int(base) if str(base).isdigit() else 0,
        level="exploration",
        coverage=dict(
            evaluations=len(good), distinct_nontrivial=len(hs),
            rule="one case = one simulated run of the whole agent, its plan (configuration and "
                 "timed operations and faults) and all scheduling choices drawn from the seed; "
                 "non-trivial = it carries out at least one planned operation, fault or "
                 "preemption; distinct = different (event-log hash, task-switch sequence hash)",
            samples=samples,
            seeds="%s/%s/0..%d" % (base, prop, max([m["i"] for m in recs] or [0])),
            runs_per_hour=int(len(good) / max(wall, 0.001) * 3600),
            simulated_seconds=round(st, 1),
            context_switches=sum(m["sw"] for m in good),
            preemptions_inside_code=sum(m["pre"] for m in good),
            agent_incarnations=sum(m["inc"] for m in good),
            distinct_interleavings=len(ils),
            interleaving_measure="hash of the sequence of task names switched to",
            faults_injected=merge(m["faults"] for m in good),
            situations_reached=merge(m["probes"] for m in good),
            scenarios=by, scheduling_strategies=strat,
            inconclusive_runs=len(recs) - len(good), harness_problems=problems,
            real_components=REAL, stub_components=STUB,
            known_findings=[k["text"] for k in known],
            known_finding_hits=sum(1 for m in good if m["v"])),
        assumptions=["a crash is a SIGKILL of the agent: what was written survives, buffers in "
                     "the process do not", "preemption happens between statements and operands of "
                     "the agent's and lomond's code and at system calls, not inside C builtins",
                     "the stubs listed above behave like Linux and the real servers"],
        wall_s=0.0, violations=0)


def _cap(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def main(argv):
    _world.prepare()
    sys.setrecursionlimit(20000)
    gc.disable()
    if argv and argv[0] == "--replay":
        return replay(argv[1], "-v" in argv)
    prop = argv[0]
    if "--replay" in argv:
        return replay(argv[argv.index("--replay") + 1], "-v" in argv)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    base = os.environ.get("VERIF_SEED", "1")
    secs = None
    if "--seconds" in argv:
        secs = float(argv[argv.index("--seconds") + 1])
    if "--one" in argv:
        i = int(argv[argv.index("--one") + 1])
        case = make_case(prop, base, i)
        r = run_case(case, verbose=True, trace_limit=100000)
        print(json.dumps(case["plan"]))
        if "-q" not in argv:
            print("\n".join(r.sim.trace))
        print("hash", r.hash, "bad", r.bad, "wall %.2f" % r.wall, r.sim.faults, r.sim.probes)
        for v in r.violations + r.others:
            print("  %s %s at %.3fs: %s" % (v[0], v[1], (v[3] - 1000 * core.SEC) / 1e9, v[2]))
        return 0
    return check(prop, tier, base, secs)


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
