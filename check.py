#!/usr/bin/env python3
"""Run one check:   check.py C01 [quick|thorough]
Replay a failure:   check.py replay FILE

exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import array
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(HERE, "target")
REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")
CORES = max(2, min(8, os.cpu_count() or 8))
ENV = dict(os.environ, RUST_BACKTRACE="0", CARGO_NET_OFFLINE="true", ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1")
for k in ("RUSTFLAGS", "MIRIFLAGS", "SIM_LOUD", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)


class Broken(Exception):
    """The check itself does not work."""


def say(*a):
    print(*a, flush=True)


# ---- building -------------------------------------------------------------------

PROFILES = {
    "debug": (["cargo", "build"], "sim", "debug/forest", {}),
    "release": (["cargo", "build", "--release"], "sim", "release/forest", {}),
    "asan": (
        ["cargo", "+nightly", "build", "--target", "x86_64-unknown-linux-gnu"],
        "asan",
        "x86_64-unknown-linux-gnu/debug/forest",
        {"RUSTFLAGS": "-Zsanitizer=address --cfg asan"},
    ),
}


def stale(target):
    # a working tree can change without its times of modification moving forward
    for d in glob.glob(f"{target}/**/.fingerprint/rowan-*", recursive=True):
        shutil.rmtree(d, ignore_errors=True)


def start_build(profile, crate="sim"):
    cmd, sub, _, env = PROFILES[profile]
    target = os.path.join(TARGET, sub)
    stale(target)
    out = tempfile.TemporaryFile()
    p = subprocess.Popen(
        cmd + ["--offline", "--quiet", "--manifest-path", os.path.join(HERE, crate, "Cargo.toml"), "--target-dir", target],
        stdout=out, stderr=subprocess.STDOUT, env=dict(ENV, **env), cwd=HERE)
    return p, out, profile


def finish_build(b):
    p, out, profile = b
    if p.wait() != 0:
        out.seek(0)
        raise Broken(f"build ({profile}) failed:\n" + out.read().decode(errors="replace")[-3000:])


def binary(profile):
    _, sub, path, _ = PROFILES[profile]
    return os.path.join(TARGET, sub, path)


def build(profiles):
    # release and debug share a directory, each with a lock of its own
    for b in [start_build(p) for p in profiles]:
        finish_build(b)


# ---- the forest simulator ---------------------------------------------------------

FOREST = {
    # profiles of the workers
    "default": ["debug", "release"] * 4,
    "memory": ["debug", "release", "asan", "asan", "debug", "asan", "release", "asan"],
}


def run_plan(profile, path, alarm=20):
    """What a plan does: a class and a message."""
    try:
        r = subprocess.run([binary(profile), "exec", path, "--alarm", str(alarm)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=alarm * 8 + 60)
    except subprocess.TimeoutExpired:
        return "hang", "does not end"
    out, err = r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    if r.returncode == 0:
        return None, out.strip()
    for line in out.splitlines():
        if line.startswith("VIOLATED "):
            return "violated", line[9:]
    if r.returncode == 3:
        for line in err.splitlines():
            if line.startswith("FATAL: "):
                return "memory", line[7:]
    if r.returncode == 2:
        raise Broken("cannot run a plan: " + err[-500:])
    if r.returncode == -27:
        return "hang", f"does not end within {alarm} s"
    for line in err.splitlines():
        if "ERROR: AddressSanitizer" in line:
            what = line.split("AddressSanitizer:")[1].split(" on ")[0].strip()
            return "memory", "address sanitizer: " + what
    return "crash", f"process ends with {r.returncode}: " + " | ".join(err.strip().splitlines()[-2:])[:300]


def kind_of(cls, msg):
    """What has to stay the same while a plan is made smaller."""
    if cls == "violated":
        m = msg.split(": ", 1)[1] if msg.startswith("step ") else msg
        return cls, m.split(":")[0].split(" of ")[0].split(" on ")[0][:40]
    return cls, ""


def minimise(profile, text, cls, msg, deadline, alarm):
    lines = text.splitlines()
    head = [l for l in lines if not l.startswith("op ")]
    ops = [l for l in lines if l.startswith("op ")]
    want = kind_of(cls, msg)
    fd, path = tempfile.mkstemp(suffix=".plan")
    os.close(fd)
    tried = 0

    def fails(cfg, sub):
        nonlocal tried
        tried += 1
        with open(path, "w") as f:
            f.write("\n".join(cfg + sub) + "\n")
        c, m = run_plan(profile, path, alarm)
        return c is not None and kind_of(c, m) == want

    try:
        if not fails(head, ops):
            return None, tried
        n = 2
        while len(ops) >= 2 and time.time() < deadline:
            size = max(1, len(ops) // n)
            smaller = False
            i = 0
            while i < len(ops) and time.time() < deadline:
                sub = ops[:i] + ops[i + size:]
                if sub and fails(head, sub):
                    ops = sub
                    smaller = True
                else:
                    i += size
            if not smaller and size == 1:
                break
            n = min(len(ops), n * 2) if not smaller else max(2, n // 2 * 2)
        # simpler configuration
        for key, val in [("clients", 1), ("empties", 0), ("empty_tokens", 0), ("sharing", 0), ("alphabet", 0), ("hold", 0), ("on_yield", 0), ("size", 4), ("width", 3), ("depth", 2), ("refuse", 0), ("audit_every", 1)]:
            if time.time() > deadline:
                break
            new = [f"cfg {key} {val}" if l.startswith(f"cfg {key} ") else l for l in head]
            if new != head and fails(new, ops):
                head = new
    finally:
        os.unlink(path)
    return "\n".join(head + ops) + "\n", tried


LONG = ("WIDE", "DEEP", "HUGE", "OVER", "STORM", "CACHE", "BUILD")
patience = 360


def really_hangs(prop, profile, seed):
    """Time used up: is it that nothing comes of it, or is the code slow?"""
    global patience
    text = subprocess.run([binary(profile), "gen", "--prop", str(int(prop[1:])), "--seed", str(seed)], stdout=subprocess.PIPE, env=ENV).stdout.decode()
    fd, path = tempfile.mkstemp(suffix=".plan")
    with os.fdopen(fd, "w") as f:
        f.write(text)
    try:
        large = any(l.split()[2] in LONG for l in text.splitlines() if l.startswith("op "))
        # what has to do with many thousands of things may take its time, once compiled for speed
        for prof, limit in [(profile, 60)] + ([("release", 100)] if large else []):
            if prof == "release" and not os.path.exists(binary(prof)):
                build([prof])
            if patience < limit:
                return False
            started = time.time()
            c, _ = run_plan(prof, path, limit)
            patience -= time.time() - started
            if c != "hang":
                return c is not None and prof == profile
        return True
    finally:
        os.unlink(path)


def report_forest(prop, profile, seed, cls, msg, tier):
    """Confirm, minimise, write the replay file."""
    number = str(int(prop[1:]))
    text = subprocess.run([binary(profile), "gen", "--prop", number, "--seed", str(seed)], stdout=subprocess.PIPE, env=ENV).stdout.decode()
    fd, path = tempfile.mkstemp(suffix=".plan")
    with os.fdopen(fd, "w") as f:
        f.write(text)
    alarm = 60 if cls == "hang" else 20
    c, m = run_plan(profile, path, alarm)
    os.unlink(path)
    if c is None:
        # it did happen: the whole batch up to there is what reproduces it
        say(f"note: seed {seed} ({profile}) alone does not fail again: {msg}")
        c, m, small, tried = cls, msg, text, 0
    else:
        small, tried = minimise(profile, text, c, m, time.time() + (60 if tier == "quick" else 300), 5 if c == "hang" else 20)
        small = small or text
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{prop}-{profile}-{seed}.plan")
    with open(path, "w") as f:
        f.write(small)
    final = run_plan(profile, path, 20)
    with open(path, "w") as f:
        f.write(f"# {prop}: {final[1] or m}\n# class {final[0] or c}\n# simulator forest, profile {profile}, {small.count(chr(10) + 'op ')} operations left of {text.count(chr(10) + 'op ')} after {tried} tries\n")
        f.write(f"# replay: python3 check.py replay {os.path.relpath(path, HERE)}\n")
        f.write(small)
    say(f"{prop}: seed {seed}, profile {profile}: {final[1] or m}")
    say(f"VIOLATION property={prop} replay={path}")
    return path


def forest(prop, tier, seed, profiles, seconds, extra=None):
    started = time.time()
    kinds = sorted(set(profiles))
    build(kinds)
    built = time.time() - started
    number = str(int(prop[1:]))
    tmp = tempfile.mkdtemp(prefix="forest-")
    found = None
    workers = []
    try:
        n = len(profiles)
        def launch(i, prof, first, seconds):
            out = open(f"{tmp}/out{i}", "wb")
            err = open(f"{tmp}/err{i}", "wb")
            return subprocess.Popen(
                [binary(prof), "run", "--prop", number, "--from", str(first), "--stride", str(n), "--count", "100000000", "--time", str(max(1, int(seconds))), "--base", str(seed),
                 "--status", f"{tmp}/status{i}", "--hashes", f"{tmp}/hashes{i}", "--alarm", "30"],
                stdout=out, stderr=err, env=ENV)

        begun = time.time()
        for i, prof in enumerate(profiles):
            workers.append((i, prof, launch(i, prof, i, seconds)))
        deadline = time.time() + seconds * 3 + 600
        pending = list(workers)
        slow = 0
        while pending and found is None:
            time.sleep(0.05)
            if time.time() > deadline:
                raise Broken("workers do not end")
            for w in list(pending):
                i, prof, p = w
                rc = p.poll()
                if rc is None:
                    continue
                pending.remove(w)
                if rc == 0:
                    continue
                out = open(f"{tmp}/out{i}", errors="replace").read()
                err = open(f"{tmp}/err{i}", errors="replace").read()
                status = open(f"{tmp}/status{i}").read().split()
                at = int(status[0]) if status else 0
                cls, msg = "crash", f"worker ends with {rc}: " + err.strip()[-300:]
                if rc == 1:
                    cls = "violated"
                    line = [l for l in out.splitlines() if l.startswith("VIOLATED ")][0]
                    msg = line.split(" ", 2)[2]
                elif rc == 3:
                    cls, msg = "memory", err.strip().split("FATAL: ")[-1]
                elif rc in (2, 4):
                    raise Broken(f"worker ends with {rc}: {err[-800:]}")
                elif rc == -27:
                    cls, msg = "hang", "does not end"
                elif rc == -9:
                    raise Broken("worker was killed")
                if cls == "hang" and not really_hangs(prop, prof, at):
                    slow += 1
                    say(f"note: seed {at} ({prof}) is slow")
                    left = seconds - (time.time() - begun)
                    if left < 1:
                        continue
                    w2 = (i, prof, launch(i, prof, i + slow * n * 10_000_000, left))
                    workers[i] = w2
                    pending.append(w2)
                    continue
                found = (prof, at, cls, msg)
                break
        for _, _, p in workers:
            if p.poll() is None:
                p.kill()
                p.wait()
        if found is None and slow and not any(l.startswith("STATS ") for i, _, _ in workers for l in open(f"{tmp}/out{i}")):
            raise Broken("everything is slow")
        if found:
            path = report_forest(prop, *found, tier)
            return 1, {"evaluations": 1, "distinct_nontrivial": 1, "rule": "stopped at the first violation", "samples": [path]}
        # evidence
        total = {}
        stats = {}
        by_profile = {}
        traces = set()
        states = set()
        samples = []
        for i, prof, _ in workers:
            line = [l for l in open(f"{tmp}/out{i}") if l.startswith("STATS ")]
            if not line:
                continue
            s = json.loads(line[0][6:])
            for k in ("runs", "hits", "edits", "steps"):
                total[k] = total.get(k, 0) + s[k]
            by_profile[prof] = by_profile.get(prof, 0) + s["runs"]
            for k, v in s["stats"].items():
                stats[k] = stats.get(k, 0) + v
            samples += [dict(x, profile=prof) for x in s["samples"][:1]]
            for name, into in (("", traces), (".states", states)):
                a = array.array("Q")
                with open(f"{tmp}/hashes{i}{name}", "rb") as f:
                    a.frombytes(f.read())
                into.update(a)
        # the same seeds again: every byte of the history has to be the same
        twice = []
        again = {"C13": 3, "C19": 20}.get(prop, 60)
        for prof in kinds:
            one = []
            for _ in range(2):
                r = subprocess.run([binary(prof), "run", "--prop", number, "--count", str(again), "--time", "60", "--base", str(seed)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV)
                line = [l for l in r.stdout.decode().splitlines() if l.startswith("STATS ")]
                one.append(json.loads(line[0][6:])["check"] if line else None)
            twice.append((prof, one[0], one[0] == one[1]))
        span = time.time() - started - built
        plan = subprocess.run([binary(kinds[0]), "gen", "--prop", number, "--seed", str(samples[0]["seed"] if samples else seed)], stdout=subprocess.PIPE, env=ENV).stdout.decode().splitlines()
        cov = {
            "evaluations": total["runs"],
            "distinct_nontrivial": len(traces),
            "rule": "one seed is one run: a swarm configuration and a list of client operations with faults; a run is non-trivial if at least one operation exercised the property (an edit, a lookup, a fault that fired ...), and distinct by the hash of which client did what with which outcome",
            "samples": samples[:6] + [{"plan": plan}],
            "operations": total["steps"],
            "edits_of_shared_trees": total["edits"],
            "checks_that_mattered": total["hits"],
            "distinct_world_states": len(states),
            "state_measure": "hash over all clients of the content of each held handle's tree and the handle's place in it, sampled every third step",
            "runs_per_hour": int(total["runs"] / max(seconds, 0.001) * 3600),
            "seeds_per_hour": int(total["runs"] / max(seconds, 0.001) * 3600),
            "simulated_time": "rowan has no clock; simulated time is the number of operations",
            "runs_by_build": by_profile,
            "faults_fired": {k: v for k, v in stats.items() if k.startswith("fault.") or k.startswith("oom.")},
            "operations_by_kind": {k: v for k, v in stats.items() if k.startswith("op.")},
            "audits": stats.get("audits", 0),
            "outside_this_property": {k: v for k, v in stats.items() if k.startswith("other.")},
            "determinism": [{"build": p, "history_hash": h, "same_twice": same} for p, h, same in twice],
            "real_components": "all of rowan, hashbrown, rustc-hash, text-size, countme, memoffset",
            "stub_components": "clients, Language, iterators, matchers, visitors, sinks, serializers, global allocator (auditing)",
            "build_s": round(built, 1),
            "search_s": seconds,
        }
        return 0, cov
    finally:
        for _, _, p in workers:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)


# ---- the checks ---------------------------------------------------------------------

def check_forest(prop, tier, seed):
    profiles = FOREST["memory"] if prop in ("C06", "C09", "C10") else FOREST["default"]
    if tier == "thorough":
        profiles = FOREST["memory"]
    if prop == "C13":
        profiles = FOREST["default"]
    seconds = int(os.environ.get("SIM_SECONDS", 60 if tier == "quick" else 600))
    rc, cov = forest(prop, tier, seed, profiles, seconds)
    if rc == 0 and prop == "C06":
        # more handles than fit into the count
        r = subprocess.run([binary("release"), "saturate"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=600)
        out = r.stdout.decode(errors="replace").strip()
        cov["reference_count_overflow"] = f"ends with {r.returncode}"
        if r.returncode == 0 or "still here" in out:
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, "C06-saturate.txt")
            with open(path, "w") as f:
                f.write("# C06: more clones of a handle than can be counted wrap the count around\n# class saturate\n# simulator forest, profile release\n")
            say(f"VIOLATION property=C06 replay={path}")
            rc = 1
    if rc == 0 and prop == "C19":
        # through the builder, and in one token
        r = subprocess.run([binary("release"), "beyond"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=600)
        out = r.stdout.decode(errors="replace").strip().splitlines()
        cov["builder_and_token"] = out + ([] if r.returncode in (0, 1) else [f"ends with {r.returncode}, not judged"])
        if r.returncode == 1:
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, "C19-beyond.txt")
            with open(path, "w") as f:
                f.write(f"# C19: {out[-1] if out else '?'}\n# class beyond\n# simulator forest, profile release\n")
            say(f"VIOLATION property=C19 replay={path}")
            rc = 1
    if rc == 0 and prop in VAST:
        # more than 24 bits of children, or millions of values in one cache
        cov["vast"] = []
        for n in range(seed, seed + (1 if tier == "quick" else 6)):
            code, out = vast(prop, n)
            cov["vast"].append(f"seed {n}: {out}" if code in (0, 1) else f"seed {n} ends with {code}, not judged: {out}")
            if code in (1, -signal.SIGSEGV, -signal.SIGBUS):
                os.makedirs(REPLAYS, exist_ok=True)
                path = os.path.join(REPLAYS, f"{prop}-vast.txt")
                with open(path, "w") as f:
                    f.write(f"# {prop}: {out or 'memory is gone'}\n# class vast\n# property {prop}\n# seed {n}\n# simulator forest, profile release\n")
                say(f"{prop}: {out}")
                say(f"VIOLATION property={prop} replay={path}")
                rc = 1
                break
    return rc, cov


VAST = ("C01", "C02", "C03", "C04", "C05", "C12", "C14", "C15", "C16", "C17")


def vast(prop, seed):
    """What it ends with, and its last word. Code that takes too long over it is not judged."""
    try:
        r = subprocess.run([binary("release"), "vast", "--prop", str(int(prop[1:])), "--seed", str(seed)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=100)
    except subprocess.TimeoutExpired:
        return None, "takes too long"
    return r.returncode, (r.stdout.decode(errors="replace").strip().splitlines() or [""])[-1]


def evidence(prop, tier, seed, level, cov, wall, assumptions, violations):
    os.makedirs(EVIDENCE, exist_ok=True)
    e = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    tmp = os.path.join(EVIDENCE, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, f"{prop}.json"))


ASSUMPTIONS = {
    "forest": [
        "the reference model (sim/src/model.rs) is right; it is a plain tree of vectors",
        "one process, one thread: clients take turns at the granularity of calls and callbacks",
        "a clean batch is evidence over the seeds that were run, not a proof",
    ],
}


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    if prop == "setup":
        build(list(PROFILES))
        import threads_check
        threads_check.build()
        if threads_check.finish(threads_check.weave(["selftest"], 300), 300)[0].count("not "):
            raise Broken("Weave's own test fails")
        threads_check.miri("C07", "-Zmiri-many-seeds=0..2", ["gen", "7", "1"], 600)
        import release_check
        release_check.build()
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1") & 0xFFFFFFFF
    started = time.time()
    say(f"{prop} {tier} VERIF_SEED={seed}")
    if prop in ("C07", "C08"):
        import threads_check as m
        rc, cov, level, assume = m.check(prop, tier, seed)
    elif prop == "C18":
        import release_check as m
        rc, cov, level, assume = m.check(prop, tier, seed)
    else:
        rc, cov = check_forest(prop, tier, seed)
        level, assume = "exploration", ASSUMPTIONS["forest"]
        if prop in ("C09", "C10", "C11", "C13"):
            level = "fault_enumeration" if prop == "C13" else "exploration"
    evidence(prop, tier, seed, level, cov, time.time() - started, assume, 1 if rc else 0)
    say(f"{prop}: {'violated' if rc else 'held'} ({cov.get('evaluations')} runs, {cov.get('distinct_nontrivial')} distinct and non-trivial, {time.time() - started:.0f} s)")
    return rc


def replay(path):
    text = open(path).read()
    head = dict(l[2:].split(" ", 1) for l in text.splitlines() if l.startswith("# ") and " " in l[2:])
    if "threads" in head.get("simulator", ""):
        import threads_check as m
        return m.replay(path)
    if "release" in head.get("simulator", "").split(",")[0]:
        import release_check as m
        return m.replay(path)
    profile = head["simulator"].split("profile ")[1].split(",")[0]
    build([profile])
    if head.get("class") == "saturate":
        return 1 if subprocess.run([binary("release"), "saturate"], env=ENV).returncode == 0 else 0
    if head.get("class") == "beyond":
        return 1 if subprocess.run([binary("release"), "beyond"], env=ENV).returncode == 1 else 0
    if head.get("class") == "vast":
        code, out = vast(head["property"], int(head["seed"]))
        say(out)
        return 0 if code in (0, None) else 1
    cls, msg = run_plan(profile, path, 60)
    say(f"{cls or 'held'}: {msg}")
    return 1 if cls else 0


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    try:
        rc = main()
    except Broken as e:
        say(f"the check is broken: {e}")
        rc = 2
    sys.exit(rc)
