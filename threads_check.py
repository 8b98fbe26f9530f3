"""C07 and C08: threads over shared green trees, under Weave and under Miri."""
import hashlib
import json
import concurrent.futures
import os
import re
import shlex
import subprocess
import tempfile
import time

import check as base

HERE = base.HERE
TARGET = os.path.join(base.TARGET, "threads")
FLAGS = "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation"
# scripts to choose from in a batch of schedules
TABLE = 256
ASSUME = [
    "Weave's happens-before rules (C++20's, minus consume, with sequentially consistent fences a little stronger) and bookkeeping are right; its own test runs with each check",
    "Miri's scheduler, race detector and weak memory emulation are right; reorderings neither of them emulates (load buffering) are not explored",
    "accesses are checked without an aliasing model (stacked borrows off)",
    "a clean batch is evidence over the schedules that were run, not a proof",
]
STOPPED = {"rule": "stopped at the first violation"}
STRATEGIES = {"0": "switch only when waiting", "1": "random walk", "2": "priorities", "3": "some places in the code", "4": "trace", "5": "static words"}
RATES = ["0.05", "0.3", "0.01", "0.12"]


def env(flags):
    e = dict(base.ENV)
    e["MIRIFLAGS"] = f"{FLAGS} {flags}".strip()
    return e


def miri(prop, flags, args, timeout):
    """Exit status and output of the program under Miri."""
    extra = " -Zmiri-ignore-leaks" if prop == "C08" else ""
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--manifest-path", f"{HERE}/threads/Cargo.toml", "--target-dir", f"{TARGET}/miri", "--"] + args
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(flags + extra), cwd=f"{HERE}/threads", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate()
        p.returncode = None
    # the lines of one must not end up within those of the other
    return p.returncode, out.decode(errors="replace") + "\n" + err.decode(errors="replace")


def native(args, timeout=120):
    return subprocess.run([f"{TARGET}/debug/threads"] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=base.ENV, timeout=timeout)


WRAPPED = "memcmp bcmp pthread_create pthread_join sched_yield pthread_attr_getguardsize syscall".split()
WEAVE = os.path.join(TARGET, "weave")
WEAVE_BIN = os.path.join(WEAVE, "x86_64-unknown-linux-gnu/debug/threads")


def start_weave():
    """Weave's run-time, and the program, std included, compiled to call it."""
    os.makedirs(WEAVE, exist_ok=True)
    src = f"{HERE}/threads/weave/rt.c"
    rt = os.path.join(WEAVE, f"rt-{hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]}.o")
    if not os.path.exists(rt):
        r = subprocess.run(["gcc", "-O3", "-march=x86-64-v2", "-fPIC", "-c", src, "-o", rt + ".new"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise base.Broken("gcc failed:\n" + r.stdout.decode(errors="replace")[-3000:])
        os.replace(rt + ".new", rt)
    base.stale(WEAVE)
    flags = f"-Zsanitizer=thread -Zexternal-clangrt --cfg weave -Cdebuginfo=line-tables-only -Clink-arg={rt} -Clink-arg=-Wl," + ",".join(f"--wrap={w}" for w in WRAPPED)
    return subprocess.Popen(
        ["cargo", "+nightly", "build", "--offline", "--quiet", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu", "--manifest-path", f"{HERE}/threads/Cargo.toml", "--target-dir", WEAVE],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(base.ENV, RUSTFLAGS=flags))


def build():
    base.stale(TARGET)
    w = start_weave()
    r = subprocess.run(
        ["cargo", "build", "--offline", "--quiet", "--manifest-path", f"{HERE}/threads/Cargo.toml", "--target-dir", TARGET],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=base.ENV)
    out, _ = w.communicate()
    if r.returncode != 0:
        raise base.Broken("build (threads) failed:\n" + r.stdout.decode(errors="replace")[-3000:])
    if w.returncode != 0:
        raise base.Broken("build (weave) failed:\n" + out.decode(errors="replace")[-3000:])


# ---- Weave ----------------------------------------------------------------------

def places(text):
    """Addresses in the program, as places in its source."""
    def one(m):
        r = subprocess.run(["addr2line", "-f", "-C", "-i", "-e", WEAVE_BIN, "0x" + m.group(1)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        lines = r.stdout.decode(errors="replace").splitlines()
        pairs = list(zip(lines[::2], lines[1::2]))
        own = [p for p in pairs if "/repo/" in p[1]] or pairs
        return f"in {own[0][0]} at {own[0][1].split('/library/')[-1]}" if own else ""
    return re.sub(r"@([0-9a-f]+)", one, text)


def weave(args, timeout):
    return subprocess.Popen([WEAVE_BIN] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=base.ENV)


def finish(p, timeout):
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise base.Broken("Weave does not end")
    return out.decode(errors="replace"), err.decode(errors="replace")


def line(out, head):
    return next((l[len(head) + 1:] for l in out.splitlines() if l.startswith(head + " ")), None)


def weave_phase(prop, tier, seed, seconds, self_test):
    """(path of the replay file or None, what was covered)"""
    n = int(prop[1:])
    ps = [weave(["search", n, seed, i, base.CORES, seconds, 40], seconds + 120) for i in range(base.CORES)]
    tester = weave(["selftest"], 300) if self_test else None
    cov = {}
    seen = None
    for p in ps:
        out, err = finish(p, seconds + 240)
        stats = line(out, "STATS")
        if stats is None:
            raise base.Broken("Weave: " + (out + err)[-1500:])
        for k, v in json.loads(stats).items():
            if k in ("ops", "strategies"):
                d = cov.setdefault(k, {})
                for x, y in v.items():
                    d[x] = d.get(x, 0) + y
            elif k == "sample":
                cov.setdefault("samples", []).extend([v] if v else [])
            else:
                cov[k] = cov.get(k, 0) + v
        if line(out, "BROKEN"):
            raise base.Broken("Weave: " + line(out, "BROKEN"))
        f = line(out, "FOUND")
        if f and not seen:
            seen = json.loads(f)
    if tester:
        out, _ = finish(tester, 300)
        if tester.returncode != 0:
            raise base.Broken("Weave's own test: " + out[-1500:])
        cov["selftest"] = line(out, "SELFTEST")
    if not seen:
        if cov["unequal"]:
            raise base.Broken(f"{cov['unequal']} of {cov['repeated']} runs are different when repeated")
        return None, cov
    os.makedirs(base.REPLAYS, exist_ok=True)
    path = os.path.join(base.REPLAYS, f"{prop}-weave-{seen['script_seed']}.txt")
    out, err = finish(weave(["minimise", n, seen["script_seed"], max(41, seen["schedule"] + 1), 60 if tier == "quick" else 300], 600), 900)
    small = line(out, "MINIMAL")
    if small is None:
        raise base.Broken(f"Weave: script {seen['script_seed']} schedule {seen['schedule']} is not there again: " + (out + err)[-1000:])
    small = json.loads(small)
    what = places(small["what"])
    with open(path, "w") as f:
        f.write(f"# {prop}: {what}\n# simulator threads (weave)\n# replay: python3 check.py replay {os.path.relpath(path, HERE)}\n")
        f.write(f"# {small['operations']} operations left of {small['operations_before']}, {small['entries']} decisions of the scheduler left of {small['entries_before']}, after {small['tries']} tries\n")
        f.write("# decisions: sN:T at synchronising operation N goes on with thread T, fN:T the same where the thread cannot go on,\n#   oN:K reads a value K stores old, wN:T wakes T for no reason, nN:T does not wait\n")
        f.write(f"property {prop}\nscript {small['script']}\nseed {small['seed']}\nreuse {small['reuse']}\ntrace {small['trace'] or '-'}\nwatch {small['watch']}\nkind {small['kind']}\n")
        if not small["exact"]:
            f.write(f"schedule {small['schedule']}\n")
    base.say(f"{prop}: script {seen['script_seed']}, schedule {seen['schedule']}: {what}")
    base.say(f"VIOLATION property={prop} replay={path}")
    return path, cov


def replay_weave(d):
    args = ["replay", int(d["property"][1:]), d["script"], d["seed"], d["reuse"], "" if d["trace"] == "-" else d["trace"], d["watch"]]
    if "schedule" in d:
        args.append(d["schedule"])
    out, err = finish(weave(args, 300), 300)
    bad = line(out, "BAD")
    if bad:
        base.say(f"violated: {places(bad)}")
        return 1
    base.say(f"held: {out.strip()}")
    return 0


# ---- Miri -----------------------------------------------------------------------

def verdict(prop, out):
    """What is wrong, if the property is concerned."""
    errors = [l for l in out.splitlines() if l.startswith("error: ")]
    ub = [l for l in errors if "Undefined Behavior" in l]
    leak = [l for l in errors if "memory leaked" in l]
    if ub:
        return "undefined behaviour: " + ub[0].split("Undefined Behavior: ")[-1][:300]
    if any("deadlock" in l for l in errors):
        return "the threads wait for each other"
    if leak and prop == "C07":
        return leak[0][7:].split(",")[0]
    if "DIFFERENT" in out:
        return "a thread's results are not those it gets alone" if prop == "C08" else None
    if "SIG" in out or any("abnormal termination" in l or "aborted" in l for l in errors):
        return "process dies: " + " | ".join(errors)[:200]
    return None


def failing_seed(out):
    m = re.search(r"FAILING SEED is:? ?(\d+)", out) or re.search(r"FAILING SEED.*?(\d+)", out)
    return int(m.group(1)) if m else None


def expectations(prop, seed, frm, count):
    r = native(["expect", str(int(prop[1:])), str(seed), str(frm), str(count)])
    lines = r.stdout.decode().splitlines()
    return r.returncode, [l.split(" ", 3) for l in lines]


def try_script(prop, script, flags, seeds, timeout=200):
    """The seed of a schedule under which the script fails, and how."""
    rc, out = miri(prop, f"{flags} -Zmiri-many-seeds=0..{seeds}", ["exec", script], timeout)
    if rc is None:
        return None, "does not end"
    if rc == 0:
        return None, None
    s = failing_seed(out)
    why = verdict(prop, out)
    return (s, why) if why else (None, None)


def kind(why):
    return re.sub(r"alloc\d+|0x[0-9a-f]+|\d+", "#", why or "")[:40]


def minimise(prop, script, flags, deadline):
    seed, why = try_script(prop, script, flags, 64)
    if seed is None:
        seed, why = try_script(prop, script, flags, 512)
    if seed is None:
        return None
    tried = 1
    head, *ops = script.split(";")
    best = (script, seed, why)

    def ok(h, o):
        nonlocal tried, best
        tried += 1
        text = ";".join([h] + o)
        s, y = try_script(prop, text, flags, 24)
        if s is not None and kind(y)[:20] == kind(why)[:20]:
            best = (text, s, y)
            return True
        return False

    size = max(1, len(ops) // 2)
    while ops and time.time() < deadline:
        i = 0
        smaller = False
        while i < len(ops) and time.time() < deadline:
            sub = ops[:i] + ops[i + size:]
            if ok(head, sub):
                ops = sub
                smaller = True
            else:
                i += size
        if size == 1 and not smaller:
            break
        size = max(1, size // 2)
    return best + (tried,)


def report(prop, tier, args, flags, seed, why, script_seed):
    os.makedirs(base.REPLAYS, exist_ok=True)
    path = os.path.join(base.REPLAYS, f"{prop}-threads-{script_seed}.txt")
    script = native(["gen", str(int(prop[1:])), str(script_seed)]).stdout.decode().strip()
    small = minimise(prop, script, flags, time.time() + (90 if tier == "quick" else 400))
    with open(path, "w") as f:
        f.write(f"# {prop}: {(small[2] if small else why)}\n# simulator threads\n# replay: python3 check.py replay {os.path.relpath(path, HERE)}\n")
        f.write(f"property {prop}\n")
        if small:
            text, s, y, tried = small
            f.write(f"# {text.count(';')} operations left of {script.count(';')} after {tried} tries\n")
            f.write(f"flags {flags} -Zmiri-seed={s}\nargs exec {shlex.quote(text)}\n")
            why = y
        else:
            f.write(f"flags {flags} -Zmiri-seed={seed}\nargs {' '.join(map(shlex.quote, args))}\n")
    base.say(f"{prop}: script {script_seed}, schedule {seed}, {flags}: {why}")
    base.say(f"VIOLATION property={prop} replay={path}")
    return path


def replay(path):
    d = dict(l.split(" ", 1) for l in open(path).read().splitlines() if l and not l.startswith("#"))
    build()
    if "script" in d:
        return replay_weave(d)
    rc, out = miri(d["property"], d["flags"], shlex.split(d["args"]), 600)
    why = "does not end" if rc is None else verdict(d["property"], out) if rc else None
    base.say(out[-3000:] if why else "")
    base.say(f"{'violated: ' + why if why else 'held'}")
    return 1 if why else 0


def check(prop, tier, seed):
    started = time.time()
    build()
    per = 128
    seconds = int(os.environ.get("SIM_SECONDS", 90 if tier == "quick" else 720))
    path, woven = weave_phase(prop, tier, seed, max(3, seconds * 3 // 5), True)
    if path:
        return 1, dict(STOPPED, evaluations=woven["runs"], distinct_nontrivial=woven["orders"], samples=[path]), "exploration", ASSUME
    weave_span = max(0.001, time.time() - started)
    seconds = max(3, seconds * 2 // 5)
    started = time.time()
    end = None
    runs = 0
    seen = set()
    scripts = set()
    ops = {}
    threads = {}
    rates = {}
    samples = []
    same_twice = None

    def one(batch, n):
        rate = RATES[batch % len(RATES)]
        flags = f"-Zmiri-preemption-rate={rate}"
        if batch % 3 == 1:
            flags += " -Zmiri-address-reuse-rate=0.9 -Zmiri-address-reuse-cross-thread-rate=0.5"
        rc, exp = expectations(prop, seed, batch * TABLE, TABLE)
        if rc != 0:
            return batch, flags, exp, None, None, n, rc, ""
        args = ["batch", str(int(prop[1:])), str(seed), str(batch * TABLE), "".join(e[1] for e in exp)]
        lo = (seed * 100003 + batch * 1000) & 0x3FFFFFFF
        rc, out = miri(prop, f"{flags} -Zmiri-many-seeds={lo}..{lo + n}", args, 600)
        return batch, flags, exp, args, lo, n, rc, out

    pool = concurrent.futures.ThreadPoolExecutor(2)
    try:
        # the first one also builds
        todo = [pool.submit(one, 0, 16)]
        nxt = 1
        while todo:
            batch, flags, exp, args, lo, n, rc, out = todo.pop(0).result()
            if end is None:
                end = time.time() + seconds
            while len(todo) < 2 and time.time() < end:
                todo.append(pool.submit(one, nxt, per))
                nxt += 1
            if args is None:
                # one thread is enough to break it
                script_seed = native(["seed", str(seed), str(batch * TABLE + len(exp))]).stdout.decode().strip()
                script = native(["gen", str(int(prop[1:])), script_seed]).stdout.decode().strip()
                s, why = try_script(prop, script, "", 4, 400)
                if s is None:
                    raise base.Broken(f"script {script_seed} ends with {rc}")
                path = report(prop, tier, [], "", s, why, script_seed)
                return 1, dict(STOPPED, evaluations=runs + 1, distinct_nontrivial=len(seen), samples=[path]), "exploration", ASSUME
            if rc is None:
                raise base.Broken("a batch under Miri does not end: " + out[-500:])
            if rc != 0:
                s = failing_seed(out)
                if s is None:
                    raise base.Broken("Miri fails: " + out[-1500:])
                rc1, out1 = miri(prop, f"{flags} -Zmiri-seed={s}", args, 600)
                why = verdict(prop, out1)
                m = re.search(r"TAKES (\d+)", out1)
                if rc1 != 0 and why and m:
                    end = 0
                    path = report(prop, tier, args, flags, s, why, m.group(1))
                    return 1, dict(STOPPED, evaluations=runs + 1, distinct_nontrivial=len(seen), samples=[path]), "exploration", ASSUME
                if rc1 != 0 and not why and "DIFFERENT" in out1:
                    base.say(f"note: schedule {s}: results differ, which is not what {prop} is about")
                    runs += 1
                    continue
                raise base.Broken(f"schedule {s}: status {rc1}, then: " + out1[-1500:])
            ran = re.findall(r"^RAN (\d+) same ([0-9a-f]+)", out, re.M)
            if len(ran) != n:
                raise base.Broken(f"{len(ran)} of {n} schedules ran: " + out[-800:])
            runs += n
            seen.update(ran)
            scripts.update(r[0] for r in ran)
            rate = RATES[batch % len(RATES)]
            rates[rate] = rates.get(rate, 0) + n
            by = {e[0]: e for e in exp}
            for r in ran:
                e = by[r[0]]
                threads[e[2]] = threads.get(e[2], 0) + 1
                for k, v in re.findall(r'"(\w+)": (\d+)', e[3]):
                    ops[k] = ops.get(k, 0) + int(v)
            if len(samples) < 3:
                samples.append({"script": native(["gen", str(int(prop[1:])), ran[0][0]]).stdout.decode().strip(), "interleaving": ran[0][1], "flags": flags})
            if batch == 0:
                a = miri(prop, f"{flags} -Zmiri-seed={lo + 1}", args, 300)[1]
                b = miri(prop, f"{flags} -Zmiri-seed={lo + 1}", args, 300)[1]
                pick = lambda o: re.findall(r"^(?:RAN|TAKES) .*$", o, re.M)
                same_twice = pick(a) == pick(b) and bool(pick(a))
    finally:
        pool.shutdown(wait=True, cancel_futures=True)
    span = max(0.001, time.time() - started)
    cov = {
        "evaluations": runs + woven["runs"],
        "distinct_nontrivial": len(seen) + woven["orders"],
        "rule": "one run is a script of 2 to 4 threads under one schedule; it is non-trivial if all threads ran to their ends, and distinct by script and by which thread went on at which synchronising operation (Weave) or by the order in which the threads began their operations (Miri)",
        "samples": woven.pop("samples", [])[:3] + samples,
        "runs_per_hour": int((runs + woven["runs"]) / (span + weave_span) * 3600),
        "seeds_per_hour": int((runs + woven["runs"]) / (span + weave_span) * 3600),
        "simulated_time": f"rowan has no clock; {woven['points']} synchronising operations and {woven['accesses']} other accesses under Weave, besides Miri's basic blocks",
        "weave": {
            "runs": woven["runs"],
            "scripts": woven["scripts"],
            "runs_per_hour": int(woven["runs"] / weave_span * 3600),
            "distinct_interleavings": woven["orders"],
            "operations_by_kind": woven["ops"],
            "runs_by_strategy": {STRATEGIES.get(k, k): v for k, v in woven["strategies"].items()},
            "self_test": woven.get("selftest"),
            "repeated_from_their_traces": woven["repeated"],
            "of_these_different": woven["unequal"],
        },
        "miri": {"runs": runs, "distinct_scripts": len(scripts), "threads": threads, "operations_by_kind": ops, "runs_per_hour": int(runs / span * 3600)},
        "faults": {
            "preemptions": woven["switches"],
            "stale_reads": woven["stale"],
            "spurious_wakeups": woven["spurious"],
            "memory_given_out_again": woven["reused"],
            "threads_that_die_holding_values": ops.get("die", 0) + woven["ops"].get("die", 0) * 40,
            "miri_runs_by_preemption_rate": rates,
        },
        "determinism": {"miri_same_twice": same_twice, "weave_same_from_trace": woven["repeated"] - woven["unequal"]},
        "real_components": "all of rowan, its dependencies and std, as machine code under Weave and interpreted under Miri",
        "stub_components": "scheduler, memory ordering and allocator (Weave, Miri), futex system call (Weave), client threads",
    }
    return 0, cov, "exploration", ASSUME
