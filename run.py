#!/usr/bin/env python3
"""Runs the check of one property: run.py ID [--replay FILE].

Builds the tool (and, for the in-process subchecks, a test binary over /repo's
packages) from /repo's working tree in a scratch directory, runs the generated
cases in several processes, merges what they covered into evidence/ID.json.

Exit code 0: held, 1: violated (a VIOLATION line is printed), 2: no answer.
"""
import base64
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SHARDS = int(os.environ.get("VERIF_JOBS", "8"))


def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


def go_env():
    env = dict(os.environ)
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off",
               CGO_ENABLED="0")
    env.pop("GOROOT", None)
    return env


def build(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die("%s failed in %s:\n%s" % (" ".join(cmd), cwd, p.stdout[-4000:]))


def copy_harness(scratch):
    """The harness is built from a copy: building never changes /verif."""
    dst = os.path.join(scratch, "harness")
    shutil.copytree(os.path.join(VERIF, "harness"), dst)
    return dst


def build_tool(scratch):
    out = os.path.join(scratch, "neojhat")
    build(["go", "build", "-mod=readonly", "-buildvcs=false", "-trimpath", "-o", out, "./cmd/neojhat"], REPO)
    return out


def build_cli(scratch, harness):
    out = os.path.join(scratch, "cli.test")
    build(["go", "test", "-c", "-vet=off", "-o", out, "./cli"], harness)
    return out


def build_inproc(scratch, harness, required=True, optional=True, fuzz=None):
    """A test binary of an external package laid over /repo/internal/zzverif.

    Files named opt_* use functions that the tests of neojhat do not use. If they
    do not build the rest is used, then None may be returned.
    """
    src = os.path.join(harness, "inproc")
    replace = {}
    for f in sorted(os.listdir(src)):
        if f.endswith(".go.txt") and (optional or not f.startswith("opt_")):
            replace[os.path.join(REPO, "internal/zzverif", f[:-len(".go.txt")] + "_test.go")] = os.path.join(src, f)
    overlay = os.path.join(scratch, "overlay.json")
    with open(overlay, "w") as f:
        json.dump({"Replace": replace}, f)
    mod = os.path.join(scratch, "inproc.mod")
    with open(os.path.join(REPO, "go.mod")) as f:
        text = f.read()
    with open(mod, "w") as f:
        f.write(text + "\nrequire pgregory.net/rapid v1.3.0\nrequire verif v0.0.0\nreplace verif => %s\n" % harness)
    with open(os.path.join(REPO, "go.sum")) as f:
        text = f.read()
    with open(os.path.join(harness, "go.sum")) as f:
        text += f.read()
    with open(mod[:-4] + ".sum", "w") as f:
        f.write(text)
    out = os.path.join(scratch, "inproc.test" if not fuzz else "fuzz.test")
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", overlay, "-modfile", mod, "-o", out]
    if fuzz:
        cmd += ["-fuzz", fuzz]
    cmd.append("./internal/zzverif")
    if optional:
        p = subprocess.run(cmd, cwd=REPO, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            return out
        if fuzz:
            return None
        print("NOTE: optional in-process subchecks do not build:\n" + p.stdout[-2000:])
        return build_inproc(scratch, harness, required, optional=False)
    if not required:
        p = subprocess.run(cmd, cwd=REPO, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            print("NOTE: in-process subchecks do not build:\n" + p.stdout[-2000:])
            return None
        return out
    build(cmd, REPO)
    return out


def build_c(scratch, harness, name):
    out = os.path.join(scratch, name)
    build(["gcc", "-O1", "-Wall", "-o", out, os.path.join(harness, "faultrun", name + ".c")], harness)
    return out


class Shard:
    def __init__(self, kind, binary, i, prop, scratch, env):
        self.kind, self.i = kind, i
        base = os.path.join(scratch, "%s-%d" % (kind, i))
        os.makedirs(base)
        self.stats_file, self.replay_file, self.log_file = base + ".stats", base + ".replay", base + ".log"
        env = dict(env)
        env.update(VERIF_PROP=prop, VERIF_SHARD=str(i), VERIF_SHARDS=str(SHARDS), VERIF_STATS=self.stats_file,
                   VERIF_REPLAY_OUT=self.replay_file, VERIF_SCRATCH=base)
        self.log = open(self.log_file, "w")
        self.p = subprocess.Popen([binary, "-test.timeout=0"], cwd=base, env=env, stdout=self.log,
                                  stderr=subprocess.STDOUT, start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def tail(self, death=False):
        with open(self.log_file, errors="replace") as f:
            log = f.read()
        if death:
            at = min(i for i in (log.find("fatal error: "), log.find("panic: ")) if i >= 0)
            k = log.find("[running]", at)
            return log[at:at + 300] + " ... " + log[max(k, at):][:2500]
        return log[-3000:]

    def died(self):
        """The code under test ended the process."""
        if self.p.poll() in (None, 0, 1, -9) or not os.path.exists(self.replay_file + ".cur"):
            return False
        with open(self.log_file, errors="replace") as f:
            log = f.read()
        return "CHECK-BROKEN" not in log and ("fatal error: " in log or "panic: " in log)

    def stats(self):
        try:
            with open(self.stats_file) as f:
                return json.load(f)
        except (OSError, ValueError):
            return {}


def known_findings(prop):
    """id -> description of the findings that are not repaired."""
    res = {}
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                ident, text = rest.split(" ", 1)
                res[ident.split("=", 1)[1]] = text
    return res


def main():
    if len(sys.argv) < 2:
        die("usage: run.py ID [--replay FILE]")
    prop = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    with open(os.path.join(VERIF, "checks.json")) as f:
        checks = json.load(f)
    if prop not in checks:
        die("no check for " + prop)
    spec = checks[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        die("VERIF_TIER=" + tier)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        die("VERIF_SEED is not a number")
    start = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    shards = []

    def cleanup(*_):
        for s in shards:
            if s.p.poll() is None:
                s.kill()
        shutil.rmtree(scratch, ignore_errors=True)

    def on_signal(n, _):
        cleanup()
        os._exit(2)

    signal.signal(signal.SIGTERM, on_signal)
    signal.signal(signal.SIGINT, on_signal)
    try:
        return check(prop, spec, tier, seed, replay, scratch, shards, start)
    finally:
        cleanup()


def check(prop, spec, tier, seed, replay, scratch, shards, start):
    harness = copy_harness(scratch)
    env = dict(os.environ)
    env.update(VERIF_SEED=str(abs(seed) % (1 << 40)), VERIF_TIER=tier)
    for k in ("VERIF_REPLAY", "RAPID_SEED"):
        env.pop(k, None)
    binaries = []
    if "cli" in spec["kinds"]:
        env["VERIF_BIN"] = build_tool(scratch)
        binaries.append(("cli", build_cli(scratch, harness)))
    if "inproc" in spec["kinds"]:
        b = build_inproc(scratch, harness, required="cli" not in spec["kinds"])
        if b and subprocess.run([b], env=dict(env, VERIF_LIST=prop), stdout=subprocess.PIPE, text=True).stdout.strip():
            binaries.append(("inproc", b))
    if spec.get("faultrun"):
        env["VERIF_FAULTRUN"] = build_c(scratch, harness, "faultrun")
    env["VERIF_FIXTURES"] = os.path.join(VERIF, "fixtures")
    build_s = time.time() - start

    if replay:
        with open(replay) as f:
            sub = json.load(f)["subcheck"]
        env.update(VERIF_REPLAY=os.path.abspath(replay), VERIF_SCRATCH=scratch, VERIF_PROP=prop)
        for kind, binary in binaries:
            p = subprocess.run([binary], env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode in (0, 1):
                print(p.stdout.strip())
                if p.returncode == 1:
                    print("VIOLATION property=%s replay=%s" % (prop, replay))
                return p.returncode
            if "CHECK-BROKEN" not in p.stdout and ("fatal error: " in p.stdout or "panic: " in p.stdout):
                print(p.stdout[:3000])
                print("VIOLATION property=%s replay=%s" % (prop, replay))
                return 1
        die("replay of %s failed:\n%s" % (sub, p.stdout[-3000:]))

    merged, violation, broken, known = {}, None, None, set()
    for k, (kind, binary) in enumerate(binaries):
        # generating stops when the part of the time is over, a failing case may be shrunk after that
        part = max(20, start + (480 if tier == "quick" else 720) * (k + 1) / len(binaries) - time.time())
        env["VERIF_TIME"] = str(int(part))
        batch = [Shard(kind, binary, i, prop, scratch, env) for i in range(SHARDS)]
        shards.extend(batch)
        hard = time.time() + part + 130
        running = list(batch)
        while running:
            time.sleep(0.02)
            for s in list(running):
                code = s.p.poll()
                if code is None:
                    continue
                running.remove(s)
                if code == 1 or s.died():
                    for o in running:
                        o.kill()
                    running = []
                    break
            if running and time.time() > hard:
                for s in running:
                    s.kill()
                broken = broken or "%s shards did not finish in time" % kind
                running = []
        for s in batch:
            code = s.p.returncode
            st = s.stats()
            for name, d in st.items():
                m = merged.setdefault(name, dict(evaluations=0, executions=0, skipped=0, nontrivial=set(), classes={}, samples=[]))
                for k in ("evaluations", "executions", "skipped"):
                    m[k] += d[k]
                m["nontrivial"].update(d["nontrivial"] or [])
                for k, v in (d["classes"] or {}).items():
                    m["classes"][k] = m["classes"].get(k, 0) + v
                m["samples"].extend((d["samples"] or [])[:6])
                known.update(d.get("known") or [])
            if code == 1 and os.path.exists(s.replay_file) and os.path.getsize(s.replay_file):
                size = os.path.getsize(s.replay_file)
                if violation is None or size < violation[0]:
                    err = [d["violation"] for d in st.values() if d.get("violation")]
                    violation = (size, s.replay_file, err[0] if err else "")
            elif s.died():
                with open(s.replay_file + ".cur") as f:
                    cur = f.read()
                with open(s.replay_file, "w") as f:
                    f.write(cur)
                if violation is None:
                    violation = (len(cur), s.replay_file, "the process died: " + s.tail(death=True))
            elif code not in (0, -9):
                broken = broken or "%s shard %d ended with %s:\n%s" % (kind, s.i, code, s.tail())
            elif code == -9 and violation is None and not any(o.p.returncode == 1 or o.died() for o in batch):
                broken = broken or "%s shard %d was killed" % (kind, s.i)
        if violation:
            break

    fuzzed = None
    if tier == "thorough" and spec.get("fuzz") and not violation and not broken:
        fuzzed, violation = fuzz(prop, spec["fuzz"], scratch, harness, env, dict(binaries).get("inproc"), start)

    listed = known_findings(prop)
    stray = sorted(k for k in known if k not in listed)
    evidence(prop, spec, tier, seed, merged, start, build_s, violation, stray, fuzzed)
    if violation or stray:
        path = ""
        if violation:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (prop, tier, seed))
            shutil.copy(violation[1], path)
            print("FAILURE: " + violation[2][:3000])
        for k in stray:
            print("FAILURE: finding %s is not listed" % k)
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if broken:
        die(broken)
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, listed[k]))
    total = sum(m["evaluations"] for m in merged.values())
    if total == 0:
        die("nothing was generated")
    print("property=%s tier=%s seed=%d: held on %d cases (%d executions) in %.1f s" % (
        prop, tier, seed, total, sum(m["executions"] for m in merged.values()), time.time() - start))
    return 0


def fuzz(prop, target, scratch, harness, env, inproc, start):
    """Coverage-guided search with Go's fuzzer. What it finds counts if its replay fails."""
    binary = build_inproc(scratch, harness, fuzz=target["name"]) if inproc else None
    if not binary:
        return {"note": "the fuzz target does not build"}, None
    seconds = int(max(30, start + 860 - 60 - time.time()))
    seconds = min(seconds, int(os.environ.get("VERIF_FUZZ_SECONDS", target["seconds"])))
    cwd, cache = os.path.join(scratch, "fuzz"), os.path.join(scratch, "fuzz-cache")
    os.makedirs(cwd)
    p = subprocess.run([binary, "-test.run=^$", "-test.fuzz=^%s$" % target["name"], "-test.fuzztime=%ds" % seconds,
                        "-test.parallel=%d" % SHARDS, "-test.fuzzcachedir=" + cache, "-test.fuzzminimizetime=5s"],
                       cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    lines = [l for l in p.stdout.splitlines() if "elapsed" in l]
    done = {"target": target["name"], "seconds": seconds, "last": lines[-1] if lines else p.stdout[-300:]}
    found = os.path.join(cwd, "testdata", "fuzz", target["name"])
    for f in sorted(os.listdir(found)) if os.path.isdir(found) else []:
        with open(os.path.join(found, f)) as g:
            lit = g.read().split("\n")[1]
        raw = unquote_go(lit[len("[]byte("):-1])
        path = os.path.join(scratch, "fuzz.replay")
        with open(path, "w") as g:
            json.dump({"property": prop, "subcheck": target["subcheck"], "error": "found by " + target["name"],
                       "case": {"l": {}, "raw": base64.b64encode(raw).decode()}}, g)
        q = subprocess.run([inproc], env=dict(env, VERIF_REPLAY=path, VERIF_SCRATCH=scratch, VERIF_PROP=prop), cwd=scratch,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if q.returncode == 1 or q.returncode not in (0, 3, -9) and ("fatal error: " in q.stdout or "panic: " in q.stdout):
            return done, (len(raw), path, q.stdout[:3000])
        done["unconfirmed"] = done.get("unconfirmed", 0) + 1
    return done, None


def unquote_go(lit):
    """The bytes of a Go string literal as the fuzzer writes it."""
    if lit.startswith("`"):
        return lit[1:-1].encode()
    out, i = bytearray(), 1
    simple = {"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "\\": 92, "'": 39, '"': 34}
    while i < len(lit) - 1:
        c = lit[i]
        if c != "\\":
            out += c.encode()
            i += 1
            continue
        c = lit[i + 1]
        if c in simple:
            out.append(simple[c])
            i += 2
        elif c == "x":
            out.append(int(lit[i + 2:i + 4], 16))
            i += 4
        elif c == "u" or c == "U":
            n = 4 if c == "u" else 8
            out += chr(int(lit[i + 2:i + 2 + n], 16)).encode()
            i += 2 + n
        else:
            out.append(int(lit[i + 1:i + 4], 8))
            i += 4
    return bytes(out)


def evidence(prop, spec, tier, seed, merged, start, build_s, violation, stray, fuzzed=None):
    samples, nontrivial = [], set()
    for name, m in sorted(merged.items()):
        nontrivial.update((name, k) for k in m["nontrivial"])
        # samples of every subcheck, the later ones of a shard are larger
        for s in sorted(set(m["samples"]), key=len)[:: max(1, len(set(m["samples"])) // 4)][:5]:
            samples.append("%s: %s" % (name, s))
    doc = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "evaluations": sum(m["evaluations"] for m in merged.values()),
            "distinct_nontrivial": len(nontrivial),
            "rule": spec["rule"],
            "samples": samples,
            "tool_executions": sum(m["executions"] for m in merged.values()),
            "skipped_for_time": sum(m["skipped"] for m in merged.values()),
            "subchecks": {n: {"evaluations": m["evaluations"], "executions": m["executions"],
                              "nontrivial": len(m["nontrivial"]), "classes": dict(sorted(m["classes"].items()))}
                          for n, m in sorted(merged.items())},
        },
        "assumptions": spec["assumptions"],
        "wall_s": round(time.time() - start, 2),
        "build_s": round(build_s, 2),
        "violations": (1 if violation else 0) + len(stray),
    }
    if fuzzed:
        doc["coverage"]["coverage_guided"] = fuzzed
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1, ensure_ascii=True)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    sys.exit(main())
