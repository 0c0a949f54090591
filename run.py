#!/usr/bin/env python3
"""Decides one property of unsized-vec / emplacable by watching executions.

    run.py --property V01 [--thorough]
    run.py --setup
    run.py --replay FILE

Builds the monitors (harness/) against /repo's working tree, runs the property's
workloads on all cores under them, and turns the first confirmed alarm into a
VIOLATION line with a replay file. VERIF_SEED selects the workloads.
"""
import argparse, hashlib, json, os, re, resource, shlex, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known-findings.txt")
TOOLCHAIN = "nightly-2025-07-01-x86_64-unknown-linux-gnu"
MIRI_TOOLCHAIN = "nightly-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
CORES = min(8, os.cpu_count() or 1)
ASAN_OPTIONS = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=1:handle_abort=0:detect_stack_use_after_return=0:allow_user_segv_handler=1"

# name -> (cargo profile, extra RUSTFLAGS, cargo args, directory of the binary)
CONFIGS = {
    "debug": ("dev", "", [], "debug"),
    "asan": ("san", "-Zsanitizer=address --cfg asan -Cllvm-args=-asan-instrument-dynamic-allocas=0",
             ["--target", TRIPLE], TRIPLE + "/san"),
    "release": ("release", "", [], "release"),
    # the interpreter: the harness builds a smaller workload under cfg(miri)
    "miri": ("dev", "-Awarnings", [], "miri/" + TRIPLE + "/debug"),
    # the same for machines of the other width and the other byte order
    "miri-i686": ("dev", "-Awarnings", [], "i686-unknown-linux-gnu/debug"),
    "miri-s390x": ("dev", "-Awarnings", [], "s390x-unknown-linux-gnu/debug"),
}
MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-permissive-provenance -Zmiri-ignore-leaks"
# the rules of aliasing are not settled yet: only the thorough tier asks for them
MIRI_ALIASING = {"quick": "-Zmiri-disable-stacked-borrows", "thorough": "-Zmiri-tree-borrows"}
MIRI_S = {"quick": {"miri": 60}, "thorough": {"miri": 700, "miri-i686": 300, "miri-s390x": 120}}
MIRI_PROPS = {"quick": ("V03", "V04", "V08", "V09", "V11", "E02", "E03", "E04", "E05"),
              "thorough": tuple(f"V{i:02}" for i in range(1, 16)) + tuple(f"E{i:02}" for i in range(1, 7))}

# cases per configuration: (quick, thorough)
DEFAULT_CASES = {"debug": (200_000, 1_600_000), "asan": (40_000, 400_000), "release": (0, 1_600_000)}
_E = {"debug": (800_000, 12_000_000), "asan": (150_000, 3_000_000), "release": (0, 12_000_000)}
CASES = {"V12": {"debug": (60_000, 800_000), "asan": (6_000, 60_000), "release": (0, 800_000)},
         "V10": {"debug": (200_000, 4_000_000), "asan": (30_000, 600_000), "release": (0, 4_000_000)}}
CASES |= {p: _E for p in ("E01", "E02", "E03", "E04", "E05", "E06")}

HANG_S = 90          # a single case takes milliseconds
BUDGET_S = {"quick": 240, "thorough": 2400}


def env(config):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    miri = config.startswith("miri")
    e.update(RUSTUP_TOOLCHAIN=MIRI_TOOLCHAIN if miri else TOOLCHAIN, CARGO_NET_OFFLINE="true", RUSTC_ICE="0", RUSTC_WRAPPER="",
             CARGO_TERM_COLOR="never", RUST_BACKTRACE="0",
             RUSTFLAGS=(("" if miri else "-Csymbol-mangling-version=v0 ") + CONFIGS[config][1]).strip())
    if config.startswith("miri-"):
        # its standard library is built when first needed
        e["XDG_CACHE_HOME"] = os.path.join(BUILD, "cache-" + config)
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC"):
        e.pop(k, None)
    return e


class CheckError(Exception):
    pass


def forget_stale(td, out):
    """Cargo compares times; compare contents, so that no build of another tree is ever reused."""
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(REPO, "emplacable")):
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x != "target")
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                h.update(open(p, "rb").read() + b"\0")
    for f in ("Cargo.toml",):
        h.update(open(os.path.join(REPO, f), "rb").read())
    stamp, now = os.path.join(td, "stamp"), h.hexdigest()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != now:
        # the second is where newer versions of cargo keep them
        for fp in (os.path.join(td, out, ".fingerprint"), os.path.join(td, out, "build")):
            for d in os.listdir(fp) if os.path.isdir(fp) else []:
                if d.startswith(("unsized-vec", "emplacable")):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        os.makedirs(td, exist_ok=True)
        with open(stamp, "w") as f:
            f.write(now)


def package(prop):
    """The worker that decides this property."""
    return "emonitor" if prop.startswith("E") else "monitor"


def build(configs, packages):
    """Builds the workers in every configuration; cargo decides what is stale."""
    os.makedirs(BUILD, exist_ok=True)
    bins = {}
    procs = []
    for c in configs:
        profile, flags, args, out = CONFIGS[c]
        td = os.path.join(BUILD, "t-" + c)
        forget_stale(td, out)
        if c.startswith("miri"):
            # interpreting no case at all is the way to build for the interpreter
            idle = [miri_cmd(c, os.path.join(td, out, p)) + [q, "1", "0", "0", os.path.join(BUILD, "idle"), os.path.join(BUILD, "idle")]
                    for p, q in (("monitor", "V01"), ("emonitor", "E01")) if p in packages]
            cmd = ["sh", "-c", " && ".join(shlex.join(i) for i in idle)]
            e = run_env(c, "quick", 0)
        else:
            cmd = ["cargo", "build", "--offline", "--locked", "--profile", profile,
                   "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--target-dir", td, *args]
            for p in packages:
                cmd += ["-p", p]
            e = env(c)
        procs.append((c, subprocess.Popen(cmd, env=e, cwd=HARNESS, stdout=subprocess.PIPE, start_new_session=True,
                                          stderr=subprocess.STDOUT, text=True, errors="replace")))
        bins[c] = os.path.join(td, out, packages[0])
    bad = []
    for c, p in procs:
        try:
            o, _ = p.communicate(timeout=700)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            o = "build timed out"
        if p.returncode != 0 and c.startswith("miri"):
            # another compiler, and one that lacks features of the language: its refusal says nothing about the library
            del bins[c]
            print(f"note: no {c}:", " / ".join(l for l in o.splitlines() if "error" in l)[:400])
        elif p.returncode != 0:
            bad.append((c, o))
    if bad:
        c, o = bad[0]
        raise CheckError(f"the monitor does not build ({c}):\n" + "\n".join(o.splitlines()[-40:]))
    return bins


def miri_cmd(config, binary):
    target = ["--target", config.replace("miri-", "") + "-unknown-linux-gnu"] if config != "miri" else []
    return ["cargo", "miri", "run", "--offline", "--locked", "-q", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"),
            "--target-dir", os.path.join(BUILD, "t-" + config), *target, "-p", os.path.basename(binary), "--"]


def run_env(config="", tier="quick", seed=0):
    miri = config.startswith("miri")
    e = env(config) if miri else dict(os.environ)
    if miri:
        e["MIRIFLAGS"] = f"{MIRIFLAGS} {MIRI_ALIASING[tier]} -Zmiri-seed={seed % 2**32}"
    e.update(RUST_BACKTRACE="0", ASAN_OPTIONS=ASAN_OPTIONS)
    return e


class Shard:
    """One worker process after another over a range of cases."""

    def __init__(self, binary, config, prop, seed, first, count, work, deadline, tier):
        self.tier = tier
        self.binary, self.config, self.prop, self.seed = binary, config, prop, seed
        self.first, self.count, self.work, self.deadline = first, count, work, deadline
        self.alarms, self.notes = [], []
        self.done = 0
        self.counters, self.samples, self.cases, self.prints = {}, [], set(), set()

    def spawn(self, first, count, tag, extra=(), timeout=None):
        base = os.path.join(self.work, f"{self.config}-{self.first}-{tag}")
        state, out = base + ".state", base + ".out"
        err = open(base + ".err", "w+", errors="replace")
        std = open(base + ".std", "w+", errors="replace")
        cmd = [self.binary, self.prop, str(self.seed), str(first), str(count), state, out, *extra]
        if self.config.startswith("miri"):
            cmd = [*miri_cmd(self.config, self.binary), *cmd[1:]]
        p = subprocess.Popen(cmd, env=run_env(self.config, self.tier, self.first + self.seed), start_new_session=True, stdout=std, stderr=err, stdin=subprocess.DEVNULL, cwd=self.work)
        last, since, hung, stopped = None, time.time(), False, False
        t0 = time.time()
        while True:
            try:
                p.wait(timeout=0.2 if time.time() - t0 < 5 else 1.0)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            try:
                cur = open(state, errors="replace").read().strip()
            except OSError:
                cur = ""
            if cur != last:
                last, since = cur, now
            if now - since > (timeout or HANG_S):
                hung = True
            if now > self.deadline and not timeout:
                stopped = True
            if hung or stopped:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
        std.seek(0), err.seek(0)
        so, se = std.read(), err.read()
        std.close(), err.close()
        try:
            at = int(open(state, errors="replace").read().strip() or first)
        except (OSError, ValueError):
            at = first
        if os.path.exists(out):
            self.collect(out)
            os.remove(out)
        return p.returncode, so, se, at, hung, stopped

    def collect(self, out):
        for line in open(out, errors="replace"):
            k, _, v = line.rstrip("\n").partition(" ")
            if k == "count":
                n, _, x = v.partition(" ")
                self.counters[n] = self.counters.get(n, 0) + int(x)
            elif k == "sample" and len(self.samples) < 12:
                self.samples.append(v)
            elif k == "case":
                self.cases.add(int(v, 16))
            elif k == "print":
                self.prints.add(int(v, 16))
            elif k == "done":
                self.done += int(v)

    def run(self):
        at, end = self.first, self.first + self.count
        miri = self.config.startswith("miri")
        chunk = 4000 if not miri else 8 if self.prop.startswith("V") else 24
        end_of_slice = time.time() + MIRI_S[self.tier].get(self.config, 0)
        while at < end and not self.alarms and time.time() < self.deadline:
            if miri and time.time() > end_of_slice:
                break
            n = min(chunk, end - at)
            rc, so, se, where, hung, stopped = self.spawn(at, n, "run")
            if stopped:
                self.notes.append(f"stopped by the time budget at case {where}")
                return self
            if rc == 0 and not hung:
                at += n
                continue
            if rc == 3:
                self.done += where - at
                m = re.search(r"^OTHER (\d+) (.*)$", so, re.M)
                self.notes.append("alarm of a monitor that does not decide this property: " + (m.group(0) if m else so[-300:]))
                if len(self.notes) > 40:
                    return self
                at = where + 1
                continue
            if rc == 2:
                raise CheckError(f"worker refused to run: {se[-500:]}")
            if miri and not miri_alarm(so, se):
                self.notes.append(f"the interpreter gave up on case {where}: " + describe(rc, so, se, hung))
                if len(self.notes) > 8:
                    return self
                at = where + 1
                continue
            self.confirm(at, where, rc, so, se, hung)
            self.done += where - at
            at = where + 1
        return self

    def confirm(self, first, where, rc, so, se, hung):
        """An alarm counts when the same case raises it again."""
        for start in sorted({where, first}, reverse=True):
            rc2, so2, se2, at2, hung2, _ = self.spawn(start, where - start + 1, "confirm", ("--log",) if start == where else (),
                                                      timeout=HANG_S)
            if rc2 == 0 and not hung2:
                continue
            if rc2 == 3 or (self.config.startswith("miri") and not miri_alarm(so2, se2)):
                continue
            what = describe(rc2, so2, se2, hung2)
            self.alarms.append(dict(config=self.config, tier=self.tier, miri_seed=self.first + self.seed, first=start, count=where - start + 1, case=at2, what=what,
                                    trace=se2[-60_000:], out=so2[-4000:]))
            return
        self.notes.append(f"not reproducible: case {where} rc {rc} {describe(rc, so, se, hung)}")


def miri_alarm(so, se):
    """What counts under the interpreter: its verdict of undefined behaviour, and the monitors' own alarms."""
    return re.search(r"^error: Undefined Behavior", se, re.M) or re.search(r"^VIOL ", so, re.M)


def describe(rc, so, se, hung):
    if hung:
        return "no progress: the case does not end"
    m = re.search(r"^VIOL \d+ (.*)$", so, re.M)
    if m:
        return m.group(1)
    m = re.search(r"ERROR: AddressSanitizer: (.*)", se)
    if m:
        return "AddressSanitizer: " + m.group(1)
    m = re.search(r"^error: (Undefined Behavior: .*)\n +--> (.*)", se, re.M)
    if m:
        # the frame inside the library, when the interpreter stopped below it
        at = re.search(r"(?:-->|at) (/repo/\S+)", se)
        return "Miri: " + m.group(1) + " at " + (at.group(1) if at else m.group(2))
    m = re.search(r"^error: (.*)", se, re.M)
    if m:
        return m.group(1)[:400]
    tail = [l for l in se.splitlines() if re.search(r"panicked|unsafe precondition|overflow|abort|attempt", l)]
    name = signal.Signals(-rc).name if rc < 0 else f"exit {rc}"
    return f"crash ({name}): " + " / ".join(t.strip() for t in tail[-3:])[:400]


def known_findings():
    """finding: property=<id> match=/<regex>/ <what fails>"""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", line.strip())
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out


def check(prop, thorough):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if thorough else "quick"
    props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl")) if l.strip()}
    if prop not in props:
        raise CheckError(f"no property {prop}")
    plan = {**DEFAULT_CASES, **CASES.get(prop, {})}
    counts = {c: n[1 if thorough else 0] for c, n in plan.items()}
    counts = {c: n for c, n in counts.items() if n > 0}
    if prop in MIRI_PROPS[tier]:
        counts |= {c: 100_000 for c in MIRI_S[tier]}
    bins = build(counts, [package(prop)])
    counts = {c: n for c, n in counts.items() if c in bins}
    built = time.time()
    work = os.path.join(BUILD, f"work-{prop}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    deadline = built + BUDGET_S[tier]
    total = sum(n for c, n in counts.items() if not c.startswith("miri"))
    shards = []
    base = 0
    try:
        for c, n in counts.items():
            per = -(-n // CORES)
            # every configuration sees cases of its own
            for k in range(CORES):
                shards.append(Shard(bins[c], c, prop, seed, base + k * per, per, work, deadline, tier))
            base += n + CORES
        with ThreadPoolExecutor(CORES) as ex:
            list(ex.map(lambda s: s.run(), shards))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    alarms = [a for s in shards for a in s.alarms]
    notes = [f"{s.config}: {n}" for s in shards for n in s.notes]
    done = sum(s.done for s in shards)
    counters, cases, prints, samples = {}, set(), set(), []
    for s in shards:
        for k, v in s.counters.items():
            counters[k] = counters.get(k, 0) + v
        cases |= s.cases
        prints |= s.prints
        if len(samples) < 10:
            samples += s.samples[:2]
    known = known_findings()
    new, old = [], []
    for a in alarms:
        for p, rx, what in known:
            if p == prop and rx.search(a["what"]):
                old.append(what)
                break
        else:
            new.append(a)
    for what in sorted(set(old)):
        print(f"KNOWN-FINDING: property={prop} {what}")
    observed = counters.get("observations", 0) + counters.get("checks", 0)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(cases),
            "rule": "a case is one generated workload (a history of operations or a scenario, drawn from the seed); two cases are the "
                    "same when the sequence of (operation, element kind, size class, capacity relation, alignment, capacity changes, fault) "
                    "they went through is the same, and a case that raised no monitored event is trivial",
            "distinct_situations": len(prints),
            "situation_rule": "distinct single events (operation, kind, size classes, whether capacity was full, alignment, what changed, fault)",
            "monitored_events": dict(sorted(counters.items())),
            "configurations": {c: sum(s.done for s in shards if s.config == c) for c in counts},
            "samples": samples[:10],
            "notes": notes[:20],
        },
        "assumptions": ["the monitors run in the same process as the code they watch",
                        "the pinned compiler builds the library for the monitors as it would for a user"],
        "wall_s": round(time.time() - t0, 1),
        "build_s": round(built - t0, 1),
        "violations": len(new),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n in notes[:20]:
        print("note:", n[:400])
    print(f"{prop}: {done} cases of {total} planned{' and those the interpreter had time for' if 'miri' in counts else ''}, {len(cases)} distinct, {len(prints)} distinct situations, {observed} observations, "
          f"built in {built - t0:.0f} s, {time.time() - t0:.0f} s in all")
    if new:
        os.makedirs(REPLAYS, exist_ok=True)
        for a in new[:3]:
            path = os.path.join(REPLAYS, f"{prop}-{a['config']}-{seed}-{a['case']}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, seed=seed, title=props[prop]["title"], **a), f, indent=1)
            print(f"  {a['config']} case {a['case']}: {a['what']}"[:600])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if any("not reproducible" in n for n in notes):
        raise CheckError("a worker failed and the failure could not be reproduced")
    if done == 0 or observed == 0:
        raise CheckError("nothing was observed")
    return 0


def replay(path):
    a = json.load(open(path))
    bins = build([a["config"]], [package(a["property"])])
    if not bins:
        return 2
    work = os.path.join(BUILD, "work-replay")
    os.makedirs(work, exist_ok=True)
    run = miri_cmd(a["config"], bins[a["config"]]) if a["config"].startswith("miri") else [bins[a["config"]]]
    cmd = [*run, a["property"], str(a["seed"]), str(a["first"]), str(a["count"]),
           os.path.join(work, "state"), os.path.join(work, "out"), "--log"]
    print(" ".join(cmd))
    e = run_env(a["config"], a.get("tier", "quick"), a.get("miri_seed", 0))
    return subprocess.run(cmd, env=e, cwd=work).returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.stdout.reconfigure(errors="replace")
    # what is passed by value may be large, and how often it is copied is nobody's business
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
    want = 128 << 20
    if hard == resource.RLIM_INFINITY or hard > want:
        resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
    try:
        if a.replay:
            return replay(a.replay)
        if a.setup:
            # one by one, as the checks build them
            for p in ("monitor", "emonitor"):
                print("built:", *build(["debug", "asan", "miri"], [p]).values())
            return 0
        return check(a.property, a.thorough)
    except CheckError as e:
        print("ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
