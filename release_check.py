"""C18: the release task among commands that fail, die or are missing.

The real xtask binary runs in a scratch workspace. cargo and git are stand-ins
that ask the simulator (this file) what happened: it owns branch, tags, remote,
registry, the clock and every failure."""
import fnmatch
import json
import multiprocessing
import os
import random
import re
import shutil
import signal
import socket
import subprocess
import tempfile
import time

import check as base

HERE = base.HERE
WORK = os.path.join(base.TARGET, "release")

KINDS = ["exit1", "exit101", "exit128", "sig9", "sig6", "sig15", "late", "gone", "killed"]


# ---- building ---------------------------------------------------------------------

def build():
    os.makedirs(WORK, exist_ok=True)
    ws = os.path.join(WORK, "ws")
    shutil.rmtree(ws, ignore_errors=True)
    # where it is built is where it will believe to be
    shutil.copytree("/repo", ws, ignore=shutil.ignore_patterns("target", ".git", "test_data", "fuzz"), symlinks=True)
    target = os.path.join(WORK, "target")
    for d in ("xtask-*", "rowan-*"):
        import glob
        for x in glob.glob(f"{target}/debug/.fingerprint/{d}"):
            shutil.rmtree(x, ignore_errors=True)
    env = dict(base.ENV)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "-p", "xtask", "--target-dir", target], cwd=ws, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise base.Broken("build (xtask) failed:\n" + r.stdout.decode(errors="replace")[-3000:])
    for src, out, flags in (("stub.c", "stub", ["-static"]), ("clock.c", "clock.so", ["-shared", "-fPIC", "-ldl"])):
        subprocess.run(["gcc", "-O1", "-w", *flags, "-o", f"{WORK}/{out}", f"{HERE}/release/{src}"], check=True)
    return ws


# ---- the world ----------------------------------------------------------------------

class World:
    """What outlives a run."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.remote = list(cfg["tags"])
        self.registry = {("rowan", v) for v in cfg["registry"]}
        self.order = []


def arguments(args):
    """Options and the rest, up to `--`."""
    head = args[:args.index("--")] if "--" in args else args
    return [a for a in head if a.startswith("-")], [a for a in head if not a.startswith("-")]


class Run:
    """One run of the task, as the simulator sees it."""

    def __init__(self, world, root, fault):
        self.w = world
        self.root = root
        self.fault = fault
        self.log = []
        self.tags = list(world.remote)
        self.slept = 0
        self.fired = None
        self.tests = {}
        self.effects = []
        self.after = []
        self.odd = False

    def version_of(self, manifest):
        if os.path.normpath(manifest) == os.path.join(self.root, "Cargo.toml"):
            return "rowan", self.w.cfg["version"]
        return "xtask", self.w.cfg["xtask_version"]

    def effect(self, *what):
        self.effects.append((len(self.log) - 1,) + what)
        if self.fired is not None:
            self.after.append(what)

    # what the commands do: status and output

    def cargo(self, cwd, args):
        args = [a for a in args if not a.startswith("+")]
        o, rest = arguments(args)
        sub = rest[0] if rest else ""
        if sub == "t":
            sub = "test"
        if sub == "test":
            which = "release" if any(x in ("--release", "-r", "--profile=release") for x in o) or "release" in rest[1:] and "--profile" in o else "debug"
            real = not any(x in ("--no-run", "--list", "--help", "-h") or x.startswith("--exclude") for x in o)
            only = [rest[i] for i in range(len(rest)) if i and rest[i] not in ("release", "rowan")]
            if real and not (("-p" in o or "--package" in o) and "rowan" not in rest) and not (only and "--features" not in " ".join(o)):
                self.pending_test = which
            return 0, b""
        if sub == "publish":
            dry = "--dry-run" in o or "-n" in o
            manifest = os.path.join(cwd, "Cargo.toml")
            for i, a in enumerate(args):
                if a == "--manifest-path" and i + 1 < len(args):
                    manifest = os.path.join(cwd, args[i + 1])
                elif a.startswith("--manifest-path="):
                    manifest = os.path.join(cwd, a.split("=", 1)[1])
            name, version = self.version_of(manifest)
            for i, a in enumerate(args):
                if a in ("-p", "--package") and i + 1 < len(args):
                    name = args[i + 1].split("@")[0]
                    version = self.w.cfg["version" if name == "rowan" else "xtask_version"]
            if dry:
                return 0, b""
            self.effect("publish", name, version)
            if (name, version) in self.w.registry:
                return 101, b""
            self.w.registry.add((name, version))
            self.w.order.append(("publish", name, version))
            return 0, b""
        if sub == "metadata" or sub == "pkgid" or sub == "read-manifest":
            v = self.w.cfg["version"]
            if sub == "pkgid":
                return 0, f"path+file://{self.root}#rowan@{v}\n".encode()
            p = {"name": "rowan", "version": v, "id": f"path+file://{self.root}#rowan@{v}", "manifest_path": f"{self.root}/Cargo.toml"}
            return 0, json.dumps(p if sub == "read-manifest" else {"packages": [p], "workspace_root": self.root}).encode()
        if sub in ("yank", "owner", "login"):
            self.effect(sub)
        return 0, b""

    def git(self, cwd, args):
        while args and args[0] in ("-C", "-c") and len(args) > 2:
            args = args[2:]
        args = [a for a in args if a not in ("--no-pager", "-P")]
        o, rest = arguments(args)
        sub = rest[0] if rest else ""
        branch = self.w.cfg["branch"]
        if sub == "branch":
            if "--show-current" in o:
                return 0, (branch + "\n").encode() if branch else b""
            return 0, (f"* {branch or '(HEAD detached at 95a2686)'}\n  other\n").encode()
        if sub == "symbolic-ref":
            if not branch:
                return 128, b""
            return 0, ((branch if "--short" in o else "refs/heads/" + branch) + "\n").encode()
        if sub == "rev-parse":
            if "--abbrev-ref" in o:
                return 0, ((branch or "HEAD") + "\n").encode()
            ref = rest[-1].split("^")[0]
            if "--verify" in o or "tags/" in ref or ref.startswith("v"):
                tag = ref.split("tags/")[-1]
                return (0, b"95a26862200000000000000000000000000000a1\n") if tag in self.tags else (128 if "-q" not in o else 1, b"")
            return 0, b"95a26862200000000000000000000000000000a1\n"
        if sub == "show-ref":
            tag = rest[-1].split("tags/")[-1]
            if len(rest) > 1:
                return (0, f"95a26862200000000000000000000000000000a1 refs/tags/{tag}\n".encode()) if tag in self.tags else (1, b"")
            return 0, "".join(f"95a26862200000000000000000000000000000a1 refs/tags/{t}\n" for t in sorted(self.tags)).encode()
        if sub == "ls-remote":
            return 0, "".join(f"95a26862200000000000000000000000000000a1\trefs/tags/{t}\n" for t in sorted(self.w.remote)).encode()
        if sub == "for-each-ref":
            return 0, "".join(f"{t}\n" for t in sorted(self.tags)).encode()
        if sub == "tag":
            if "-l" in o or "--list" in o or (not rest[1:] and not {"-d", "--delete"} & set(o)):
                pats = rest[1:] or ["*"]
                return 0, "".join(f"{t}\n" for t in sorted(self.tags) if any(fnmatch.fnmatchcase(t, p) for p in pats)).encode()
            if {"-d", "--delete"} & set(o):
                self.effect("untag", *rest[1:])
                self.tags = [t for t in self.tags if t not in rest[1:]]
                return 0, b""
            names = rest[1:]
            if {"-m", "--message"} & set(o):
                i = [k for k, a in enumerate(args) if a in ("-m", "--message")][0]
                names = [a for k, a in enumerate(args) if k > 0 and k != i + 1 and not a.startswith("-")]
            tag = names[0] if names else ""
            self.effect("tag", tag)
            if tag in self.tags and "-f" not in o and "--force" not in o:
                return 128, b""
            self.tags.append(tag)
            self.w.order.append(("tag", tag))
            return 0, b""
        if sub == "push":
            if "--dry-run" in o or "-n" in o:
                return 0, b""
            self.effect("push", *args[1:])
            if "--tags" in o or "--follow-tags" in o or "--mirror" in o:
                pushed = self.tags
            else:
                pushed = [t for t in self.tags if any(r == t or r == "refs/tags/" + t or r == "tag" for r in rest[1:])]
            for t in pushed:
                if t not in self.w.remote:
                    self.w.remote.append(t)
                    self.w.order.append(("push", t))
            return 0, b""
        if sub == "commit":
            self.effect("commit")
        return 0, b""

    def command(self, prog, cwd, args, proc, gone):
        """Kind and code to end with, and the output."""
        k = len(self.log)
        self.log.append((prog, cwd, args))
        f = self.fault
        kind = f["kind"] if f and f["at"] == k else None
        if kind == "killed":
            self.fired = k
            proc.kill()
            return (0, 1), b""
        if kind and kind not in ("late", "gone"):
            self.fired = k
            # asked for, not done
            if kind.startswith("sig"):
                return (1, int(kind[3:])), b""
            return (0, int(kind[4:])), b""
        self.pending_test = None
        status, out = self.cargo(cwd, args) if prog == "cargo" else self.git(cwd, args)
        if kind == "late":
            # done, and failed all the same
            self.fired = k
            return (0, 1), out
        if status == 0 and self.pending_test:
            self.tests[self.pending_test] = k
        if status != 0 and self.fired is None:
            self.fired = k
        if f and f["kind"] == "gone" and f["at"] == k + 1:
            gone(f["prog"])
        return (0, status), out


class Sim:
    """A scratch place for one worker."""

    def __init__(self, name):
        self.dir = tempfile.mkdtemp(prefix=f"rel{name}-")
        self.ws = os.path.join(WORK, "ws")
        self.xtask = os.path.join(WORK, "target", "debug", "xtask")
        self.bin = os.path.join(self.dir, "bin")
        os.mkdir(self.bin)
        for p in ("cargo", "git"):
            shutil.copy(f"{WORK}/stub", f"{self.bin}/{p}")
        self.sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.sock.bind(f"{self.bin}/sock")
        self.sock.listen(64)

    def close(self):
        self.sock.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def setup(self, cfg):
        """The workspace of this world. The binary may look for it where it was built or where it runs."""
        root = os.path.join(self.dir, "ws")
        if not os.path.isdir(root):
            os.makedirs(root + "/xtask")
        for path, name, version in (("Cargo.toml", "rowan", cfg["version"]), ("xtask/Cargo.toml", "xtask", cfg["xtask_version"])):
            text = manifest(name, version, cfg["flavour"])
            with open(f"{root}/{path}", "w") as f:
                f.write(text)
        return root

    def run(self, world, fault, reference=None):
        cfg = world.cfg
        root = self.setup(cfg)
        run = Run(world, root, fault)
        env = {"PATH": self.bin, "HOME": self.dir, "CARGO_MANIFEST_DIR": root + "/xtask", "CARGO": f"{self.bin}/cargo", "LD_PRELOAD": f"{WORK}/clock.so", "SIM_SOCK": f"{self.bin}/sock", "SIM_ROOT": root, "SIM_BUILT_IN": self.ws, "RUST_BACKTRACE": "0"}
        if cfg["ci"] is not None:
            env["CI"] = cfg["ci"]
        if cfg["token"] is not None:
            env["CRATES_IO_TOKEN"] = cfg["token"]
        env.update(cfg.get("env", {}))

        hidden = []

        def gone(prog):
            os.rename(f"{self.bin}/{prog}", f"{self.dir}/{prog}.gone")
            hidden.append(prog)

        if fault and fault["kind"] == "gone" and fault["at"] == 0:
            gone(fault["prog"])
        p = subprocess.Popen([self.xtask] + cfg["args"], cwd=root, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
        deadline = time.time() + 60
        too_many = False
        try:
            self.sock.settimeout(0.002)
            while True:
                try:
                    c, _ = self.sock.accept()
                except TimeoutError:
                    if p.poll() is not None:
                        # nothing may be left in the queue
                        self.sock.settimeout(0)
                        try:
                            c, _ = self.sock.accept()
                        except (BlockingIOError, TimeoutError):
                            break
                        self.sock.settimeout(0.002)
                    elif time.time() > deadline:
                        p.kill()
                        too_many = True
                        continue
                    else:
                        continue
                with c:
                    c.settimeout(10)
                    data = b""
                    while True:
                        d = c.recv(65536)
                        if not d:
                            break
                        data += d
                    parts = data.decode(errors="surrogateescape").split("\0")
                    if parts[0] == "sleep":
                        run.slept += int(parts[1])
                        c.send(b"x")
                        continue
                    if len(run.log) > 300:
                        p.kill()
                        too_many = True
                        continue
                    # it may also use the place it was built in
                    at = [root + x[len(self.ws):] if x == self.ws or x.startswith(self.ws + "/") else x for x in parts[2:]]
                    (sig, code), out = run.command(parts[1], at[0], at[1:], p, gone)
                    try:
                        c.sendall(bytes([sig, code]) + out)
                    except OSError:
                        pass
            run.status = p.wait()
        finally:
            if p.poll() is None:
                p.kill()
                p.wait()
            for prog in hidden:
                os.rename(f"{self.dir}/{prog}.gone", f"{self.bin}/{prog}")
        run.too_many = too_many
        return run


def manifest(name, version, flavour):
    lines = ["[package]", f'name = "{name}"', f'version = "{version}"', 'edition = "2024"']
    if flavour == 1:
        lines[2] = f'version = "{version}" # keep in sync'
    if flavour == 2:
        lines = ["# version of the package below", "[package]", f'version = "{version}"', f'name = "{name}"']
    if flavour == 3:
        lines = ["[workspace]", 'members = ["xtask"]', "", "[package]", f'name = "{name}"', f'rust-version = "1.85.0"', f'version = "{version}"']
    if flavour == 4:
        lines += ["", "[features]", 'version = "9.9.9"']
    lines += ["", "[dependencies]", 'countme = "3.0.1"', "", "[dependencies.serde]", 'version = "1.0.218"', "optional = true"]
    return "\n".join(lines) + "\n"


# ---- the oracle ---------------------------------------------------------------------

def judge(run, before, cfg, fault, reference):
    """What is wrong about a run: None if nothing."""
    tag = "v" + cfg["version"]
    # empty is neither here nor there
    in_ci = cfg["ci"] is not None and cfg["ci"] != ""
    ci_unclear = cfg["ci"] == ""
    release = in_ci and cfg["branch"] == "master" and tag not in before and cfg["args"] == ["ci"]
    real = run.effects
    if run.too_many:
        return f"does not end: {len(run.log)} commands"
    if real:
        first = real[0]
        what = " ".join(map(str, first[1:]))
        for t in ("debug", "release"):
            if t not in run.tests or run.tests[t] > first[0]:
                return f"{what} without a {t} test run that succeeded"
        if not in_ci and not ci_unclear:
            return f"{what} outside of CI"
        if cfg["branch"] != "master":
            return f"{what} on branch {cfg['branch'] or '(none)'}"
        if tag in before:
            return f"{what} although {tag} exists"
    for _, kind, *rest in real:
        if kind == "publish" and rest != ["rowan", cfg["version"]]:
            return f"publishes {rest[0]} {rest[1]}"
        if kind == "tag" and rest != [tag]:
            return f"tags {rest[0]} when publishing {cfg['version']}"
        if kind not in ("publish", "tag", "push"):
            return f"does something else: {kind} {rest}"
    order = [e[1] for e in real]
    rank = {"publish": 0, "tag": 1, "push": 2}
    if [rank[x] for x in order] != list(range(len(order))):
        return "effects out of order: " + ", ".join(order)
    if run.fired is not None:
        if run.after:
            return f"goes on with {' '.join(map(str, run.after[0]))} after {show(run.log[run.fired])} failed"
        if run.status == 0:
            return f"ends well although {show(run.log[run.fired])} failed"
        return None
    if fault and fault["kind"] == "gone":
        # the first command that could not be started, going by the run without it
        k = next((k for k in range(fault["at"], len(reference.log)) if reference.log[k][0] == fault["prog"]), None)
        if k is not None:
            later = [e for e in real if e[0] >= k]
            if later:
                return f"goes on with {' '.join(map(str, later[0][1:]))} although {show(reference.log[k])} could not be started"
            if run.status == 0:
                return f"ends well although {show(reference.log[k])} could not be started"
        return None
    if release and not run.odd:
        if order != ["publish", "tag", "push"]:
            return "all commands succeed on master in CI, but it makes only: " + (", ".join(order) or "nothing")
        if run.status != 0:
            return f"ends with {run.status} although all commands succeeded"
        if tag not in run.w.remote:
            return f"{tag} was not pushed"
    return None


def show(c):
    return " ".join([c[0]] + c[2])[:80]


# ---- generation -----------------------------------------------------------------------

def generate(seed):
    r = random.Random(seed)
    version = r.choice(["0.16.1", "1.0.0", "0.16.10", "2.11.0-rc.1", "0.1.0", "10.20.30"])
    near = ["v" + version + "0", "v0", version, "V" + version, "xv" + version, "v" + version + "-rc1", "v" + version[:-1], "v0.15.2", "v" + version + ".1", "release-v" + version]
    tags = r.sample(near, r.randint(0, 4))
    if r.random() < 0.25:
        tags.append("v" + version)
    xv = r.choice(["0.0.0", "0.9.9", "1.0.1"])
    if xv == version:
        xv = "0.0.0"
    if r.random() < 0.3:
        tags.append("v" + xv)
    r.shuffle(tags)
    return {
        "version": version,
        "xtask_version": xv,
        "ci": r.choice(["1", "true", "1", "true", "false", "", None]),
        "branch": r.choice(["master"] * 6 + ["main", "Master", "master2", "feature/master", "", "staging", "origin/master", "mastery", "xmaster"]),
        "tags": tags,
        "registry": r.choice([[], [], [], ["0.15.2"], [version]]),
        "token": r.choice(["secret", None, ""]),
        "args": r.choice([["ci"]] * 12 + [[], ["publish"], ["--help"], ["CI"]]),
        "flavour": r.randint(0, 4),
        "env": r.choice([{}, {}, {"GITHUB_ACTIONS": "true"}, {"CI_PIPELINE": "1"}, {"GITHUB_REF": "refs/heads/master"}, {"GITHUB_REF_NAME": "feature"}]),
    }


class Bad(Exception):
    pass


def history(sim, cfg, faults):
    """Runs over one world, each with a fault or none. What is wrong, and the runs."""
    world = World(cfg)
    runs = []
    for f in faults:
        reference = None
        if f and f["kind"] == "gone":
            shadow = World(cfg)
            shadow.remote, shadow.registry = list(world.remote), set(world.registry)
            reference = sim.run(shadow, None)
        before = list(world.remote)
        run = sim.run(world, f, reference)
        runs.append(run)
        why = judge(run, before, cfg, f, reference)
        if why:
            return why, runs
        # over all runs: what is tagged was published before
        tag = "v" + cfg["version"]
        if ("tag", tag) in world.order and ("rowan", cfg["version"]) not in world.registry:
            return f"{tag} is there, but {cfg['version']} is not published", runs
    return None, runs


def explore(i, n, seed, seconds, queue):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sim = Sim(i)
    try:
        end = time.time() + seconds
        stats = {"runs": 0, "worlds": 0, "slept": 0, "faults": {}, "settings": {}, "histories": 0, "commands": 0}
        seen = set()
        samples = []
        k = i
        while time.time() < end:
            s = seed * 1_000_003 + k
            cfg = generate(s)
            k += n
            stats["worlds"] += 1

            def note(runs, faults):
                stats["runs"] += len(runs)
                for run, f in zip(runs, faults):
                    stats["slept"] += run.slept
                    stats["commands"] += len(run.log)
                    kind = f["kind"] if f and (run.fired is not None or f["kind"] == "gone") else None
                    if kind:
                        stats["faults"][kind] = stats["faults"].get(kind, 0) + 1
                    seen.add(hash((cfg["ci"], cfg["branch"], "v" + cfg["version"] in cfg["tags"], tuple(cfg["args"]), tuple(cfg["registry"]) == (cfg["version"],), kind, f["at"] if f else None, tuple((c[0], tuple(c[2])) for c in run.log))))

            why, runs = history(sim, cfg, [None])
            note(runs, [None])
            if why:
                queue.put(("bad", s, cfg, [None], why))
                return
            length = len(runs[0].log)
            effects = len(runs[0].effects)
            name = ("release" if effects else "dry run" if any("publish" in c[2] for c in runs[0].log) else "nothing")
            stats["settings"][name] = stats["settings"].get(name, 0) + 1
            if len(samples) < 2:
                samples.append({"seed": s, "world": cfg, "commands": [show(c) for c in runs[0].log], "status": runs[0].status})
            r = random.Random(s ^ 0x5EED)
            # every point of failure of this world, every kind where it releases
            points = [(at, kind) for at in range(length) for kind in KINDS]
            if not effects:
                points = r.sample(points, min(len(points), 6))
            for at, kind in points:
                f = {"at": at, "kind": kind, "prog": runs[0].log[at][0]}
                why, rs = history(sim, cfg, [f])
                note(rs, [f])
                if why:
                    queue.put(("bad", s, cfg, [f], why))
                    return
                if time.time() > end:
                    break
            # runs that follow on one another
            for _ in range(3):
                fs = []
                for _ in range(r.randint(2, 4)):
                    if r.random() < 0.7 and length:
                        at = r.randrange(length)
                        fs.append({"at": at, "kind": r.choice(KINDS), "prog": runs[0].log[at][0]})
                    else:
                        fs.append(None)
                why, rs = history(sim, cfg, fs)
                stats["histories"] += 1
                note(rs, fs)
                if why:
                    queue.put(("bad", s, cfg, fs, why))
                    return
        queue.put(("ok", stats, seen, samples))
    except Exception as e:
        import traceback
        queue.put(("broken", traceback.format_exc()))
    finally:
        sim.close()


PLAIN = {"flavour": 0, "env": {}, "token": None, "registry": [], "tags": [], "xtask_version": "0.0.0", "ci": "1", "branch": "master", "version": "0.16.1"}


def minimise(cfg, faults, why):
    sim = Sim("min")
    word = why.split()[0]
    tried = 0

    def bad(c, f):
        nonlocal tried
        tried += 1
        w, _ = history(sim, c, f)
        return w if w and w.split()[0] == word else None

    try:
        if not bad(cfg, faults):
            return cfg, faults, why, tried
        changed = True
        while changed:
            changed = False
            for i in range(len(faults)):
                f = faults[:i] + faults[i + 1:]
                if f and bad(cfg, f):
                    faults = f
                    changed = True
                    break
            for i in range(len(faults)):
                if faults[i] and bad(cfg, faults[:i] + [None] + faults[i + 1:]):
                    faults = faults[:i] + [None] + faults[i + 1:]
                    changed = True
            for key, v in PLAIN.items():
                if cfg[key] != v and bad(dict(cfg, **{key: v}), faults):
                    cfg = dict(cfg, **{key: v})
                    changed = True
            for t in list(cfg["tags"]):
                c = dict(cfg, tags=[x for x in cfg["tags"] if x != t])
                if bad(c, faults):
                    cfg = c
                    changed = True
        return cfg, faults, bad(cfg, faults) or why, tried
    finally:
        sim.close()


def replay(path):
    text = open(path).read()
    d = json.loads("\n".join(l for l in text.splitlines() if not l.startswith("#")))
    build()
    sim = Sim("replay")
    try:
        why, runs = history(sim, d["world"], d["faults"])
    finally:
        sim.close()
    for i, run in enumerate(runs):
        base.say(f"run {i + 1}: " + "; ".join(show(c) for c in run.log) + f" -> {run.status}")
    base.say("violated: " + why if why else "held")
    return 1 if why else 0


def check(prop, tier, seed):
    build()
    seconds = int(os.environ.get("SIM_SECONDS", 30 if tier == "quick" else 300))
    n = base.CORES
    queue = multiprocessing.Queue()
    ps = [multiprocessing.Process(target=explore, args=(i, n, seed, seconds, queue)) for i in range(n)]
    for p in ps:
        p.start()
    level = "fault_enumeration"
    assume = [
        "the task starts its commands through PATH or $CARGO, and they are cargo and git",
        "the stand-ins answer as cargo and git would",
        "CI is set to an empty string: either reading is accepted",
    ]
    total = {}
    seen = set()
    samples = []
    try:
        for _ in range(n):
            got = queue.get(timeout=seconds * 3 + 200)
            if got[0] == "broken":
                raise base.Broken(got[1])
            if got[0] == "bad":
                _, s, cfg, faults, why = got
                for p in ps:
                    p.terminate()
                cfg, faults, why, tried = minimise(cfg, faults, why)
                os.makedirs(base.REPLAYS, exist_ok=True)
                path = os.path.join(base.REPLAYS, f"C18-release-{s}.txt")
                with open(path, "w") as f:
                    f.write(f"# C18: {why}\n# simulator release, minimised in {tried} tries from seed {s}\n# replay: python3 check.py replay {os.path.relpath(path, HERE)}\n")
                    json.dump({"world": cfg, "faults": faults}, f, indent=1)
                base.say(f"C18: seed {s}: {why}")
                base.say(f"VIOLATION property=C18 replay={path}")
                return 1, {"evaluations": 1, "distinct_nontrivial": 1, "rule": "stopped at the first violation", "samples": [path]}, level, assume
            _, stats, sn, smp = got
            seen |= sn
            samples += smp[:1]
            for k, v in stats.items():
                if isinstance(v, dict):
                    d = total.setdefault(k, {})
                    for a, b in v.items():
                        d[a] = d.get(a, 0) + b
                else:
                    total[k] = total.get(k, 0) + v
    finally:
        for p in ps:
            p.terminate()
            p.join()
    cov = {
        "evaluations": total["runs"],
        "distinct_nontrivial": len(seen),
        "rule": "one run is one execution of the xtask binary in one world (branch, tags, registry, environment) with one fault or none; distinct by setting, fault and commands issued. In a world in which it releases, every command fails in every way; in others, some do.",
        "samples": samples[:5],
        "worlds": total["worlds"],
        "worlds_by_outcome": total["settings"],
        "histories_of_several_runs": total["histories"],
        "commands_answered": total["commands"],
        "faults_fired": total["faults"],
        "simulated_seconds_slept": total["slept"] / 1000,
        "runs_per_hour": int(total["runs"] / seconds * 3600),
        "seeds_per_hour": int(total["worlds"] / seconds * 3600),
        "real_components": "the xtask binary, xshell, anyhow, process spawning of the OS",
        "stub_components": "cargo, git, remote, registry, sleeping",
    }
    return 0, cov, level, assume
