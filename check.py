#!/usr/bin/env python3
"""Run the check of one property: build from /repo's current tree, search, write the evidence file.

usage: check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]
exit 0: the property held on everything explored; 1: VIOLATION line printed; 2: error of the check.
"""
import json, os, re, subprocess, sys, time
import vbuild
from registry import CHECKS

V = vbuild.V
LIB = ("prop.cpp", "fsdrv.cpp", "fsmodel.cpp", "decode.cpp")


def binaries(pid):
    return CHECKS[pid]["bins"]


def build_bin(b):
    libs = [V + "/lib/" + f for f in b.get("lib", LIB)]
    return vbuild.build(b.get("variant", "asan"), b["name"], [V + "/" + s for s in b["src"]] + libs,
                        extra=b.get("extra", ()), link=b.get("link", ()), with_main=b.get("with_main", False))


def known(pid):
    r = []
    try:
        for l in open(V + "/known_findings.txt"):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return r


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    replay = None
    extra = []
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]; i += 2
        elif a[i] == "--seed":
            seed = a[i + 1]; i += 2
        elif a[i] == "--replay":
            replay = a[i + 1]; i += 2
        else:
            extra.append(a[i]); i += 1
    try:
        seed = str(int(seed))
    except ValueError:
        seed = "1"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    rdir = V + "/replays"
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    kn = known(pid)
    ev = {"property": pid, "tier": tier, "seed": int(seed), "level": CHECKS[pid].get("level", "exploration"),
          "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}, "assumptions": [],
          "wall_s": 0.0, "violations": 0}
    rc = 0
    hit = set()
    rules = []
    for b in binaries(pid):
        try:
            exe = build_bin(b)
        except vbuild.BuildError as e:
            print("check error: build failed\n" + str(e)[-6000:])
            return 2
        tb = time.time()
        summ = V + "/evidence/.%s.%s.json" % (pid, b["name"])
        try:
            os.unlink(summ)
        except OSError:
            pass
        cmd = [exe, "--tier", tier, "--seed", seed, "--replay-dir", rdir, "--summary", summ]
        for k, _ in kn:
            cmd += ["--known", k]
        if replay:
            cmd += ["--replay", replay]
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:" + b.get("asan", "")
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
        env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:report_signal_unsafe=0:history_size=4:" + b.get("tsan", "")
        env["VERIF_DIR"] = V
        env.update(b.get("env", {}))
        r = subprocess.run(cmd + extra, env=env, cwd=V)
        # A failure that does not repeat is not reported, but it must not cut the search short either.
        for again in (1, 2):
            if r.returncode != 3 or replay or time.time() - t0 > 400:
                break
            print("note: a failure did not reproduce and is not reported as a violation")
            cmd[cmd.index("--seed") + 1] = str(int(seed) + 7919 * again)
            r = subprocess.run(cmd + extra, env=env, cwd=V)
        try:
            s = json.load(open(summ))
            os.unlink(summ)
        except (OSError, ValueError):
            s = None
        if s:
            c = s["coverage"]
            e = ev["coverage"]
            e["evaluations"] += c.pop("evaluations")
            e["distinct_nontrivial"] += c.pop("distinct_nontrivial")
            rule = c.pop("rule")
            if rule not in rules:
                rules.append(rule)
            for x in c.pop("samples"):
                if len(e["samples"]) < 12:
                    e["samples"].append(x[:1500])
            for k in c.get("labels", {}):
                m = re.fullmatch(r"\[KF:(.*)\]", k)
                if m:
                    hit.add(m.group(1))
            e.setdefault("parts", {})[b["name"]] = c
            for x in s.get("assumptions", []):
                if x not in ev["assumptions"]:
                    ev["assumptions"].append(x)
            ev["violations"] += s.get("violations", 0)
        if r.returncode == 3:
            print("note: a failure did not reproduce and is not reported as a violation")
        elif r.returncode == 1:
            rc = 1
            ev["violations"] = max(1, ev["violations"])
        elif r.returncode != 0:
            print("check error: %s ended with %d" % (b["name"], r.returncode))
            rc = rc or 2
        if rc:
            break
    for k, t in kn:
        print("KNOWN-FINDING: property=%s %s%s" % (pid, t, "" if k in hit else " (not met in this run)"))
    ev["coverage"]["rule"] = " | ".join(rules)
    ev["wall_s"] = round(time.time() - t0, 2)
    if not replay:
        p = V + "/evidence/%s.json" % pid
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
    return rc


if __name__ == "__main__":
    sys.exit(main())
