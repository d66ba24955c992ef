#!/usr/bin/env python3
"""Builds /repo's working tree under instrumentation and runs one property's check.

    run.py C01                 run the check (VERIF_TIER, VERIF_SEED from the environment)
    run.py C01 --only 17       replay one case and print what the monitors saw
    run.py --build             build everything (warms the cache)

Exit 0: held on everything explored. 1: violation (VIOLATION line printed). 2: no answer.
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, sysconfig, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "harness"))
from props import PROPS  # noqa: E402

CACHE = os.path.join(VERIF, "build")
CXX = "clang++"
COMMON = ["-std=c++17", "-w", "-pthread", "-DDOCTEST_CONFIG_DISABLE", "-isystem", "/usr/include/eigen3"]
FLAVOURS = {
    # Memory and undefined-behaviour monitors, library and libstdc++ assertions on.
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    # What users link: optimised, assertions off.
    "rel": ["-O2", "-g1", "-DNDEBUG"],
    # Data-race monitor.
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    # Plain build for valgrind (uninitialised values).
    "vg": ["-O1", "-g1", "-fno-omit-frame-pointer"],
}
NPROC = min(8, os.cpu_count() or 8)
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:exitcode=66:detect_stack_use_after_return=1:"
                        "malloc_context_size=12:allocator_may_return_null=0:handle_abort=1",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=66",
           TSAN_OPTIONS="exitcode=66:halt_on_error=1:second_deadlock_stack=1",
           ASAN_SYMBOLIZER_PATH=shutil.which("llvm-symbolizer-18") or shutil.which("llvm-symbolizer") or "")


# No quarantine: freed addresses are handed out again at once, as by an ordinary allocator, so that what the
# library remembers by address meets new values there.
REUSE = ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0"


class BuildError(Exception):
    pass


def lib_sources():
    out = []
    for pat in ("src/*.cc", "src/planning/*.cc", "src/utils/*.cc"):
        out += sorted(glob.glob(os.path.join(REPO, pat)))
    return [s for s in out if os.path.basename(s) != "doctest.cc"]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def headers_hash():
    h = hashlib.sha256()
    pats = [REPO + "/include/**/*", REPO + "/src/**/*.h", VERIF + "/valshim/**/*.h", VERIF + "/harness/*.h",
            VERIF + "/pyshim/**/*.h"]
    for pat in pats:
        for p in sorted(glob.glob(pat, recursive=True)):
            if os.path.isfile(p):
                h.update(p.encode() + b"\0" + read(p) + b"\0")
    return h.digest()


def includes():
    return ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + VERIF + "/valshim", "-I" + VERIF + "/harness"]


def py_flags():
    """The bindings are compiled against Python and the pybind11 stand-in."""
    return ["-I" + VERIF + "/pyshim", "-isystem", sysconfig.get_path("include")]


def prune():
    files = [os.path.join(CACHE, f) for f in os.listdir(CACHE)]
    files = [f for f in files if os.path.isfile(f)]
    total = sum(os.path.getsize(f) for f in files)
    if total < 4 << 30:
        return
    for f in sorted(files, key=os.path.getmtime):
        total -= os.path.getsize(f)
        os.unlink(f)
        if total < 2 << 30:
            break


def run_cc(cmd, out):
    tmp = out + ".%d.tmp" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])
    os.rename(tmp, out)


PCH_TEXT = """#include <Eigen/Eigen>
#include <algorithm>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
"""


class Builder:
    def __init__(self):
        os.makedirs(CACHE, exist_ok=True)
        prune()
        self.hh = headers_hash()

    def pch(self, flavour):
        flags = COMMON + FLAVOURS[flavour]
        key = hashlib.sha256(repr((CXX, flags, PCH_TEXT)).encode()).hexdigest()[:24]
        src = os.path.join(CACHE, "pch_%s.h" % key)
        out = src + ".pch"
        if not os.path.exists(out):
            with open(src, "w") as f:
                f.write(PCH_TEXT)
            run_cc([CXX] + flags + ["-x", "c++-header", src], out)
        return out

    def obj(self, src, flavour, pch, extra=()):
        flags = COMMON + FLAVOURS[flavour] + list(extra)
        h = hashlib.sha256(repr((CXX, flags, src)).encode() + self.hh + read(src)).hexdigest()[:24]
        out = os.path.join(CACHE, "o_%s.o" % h)
        if os.path.exists(out):
            os.utime(out)
        else:
            inc = ["-include-pch", pch] if pch else []
            run_cc([CXX] + flags + includes() + inc + ["-c", src], out)
        return out

    def programs(self, wanted):
        """wanted: list of (flavour, [harness/app sources], needs_lib, name, embeds Python). Returns paths."""
        flavours = sorted({w[0] for w in wanted})
        with ThreadPoolExecutor(NPROC) as ex:
            pch = dict(zip(flavours, ex.map(self.pch, flavours)))
            jobs = {}
            for flavour, srcs, lib, _, py in wanted:
                for s in srcs:
                    jobs[(s, flavour, py)] = None
                for s in (lib_sources() + [VERIF + "/valshim/valshim.cc"]) if lib else []:
                    jobs[(s, flavour, False)] = None
            # Longest first.
            order = sorted(jobs, key=lambda j: -os.path.getsize(j[0]))
            objs = dict(zip(order, ex.map(lambda j: self.obj(j[0], j[1], pch[j[1]], py_flags() if j[2] else ()), order)))
            paths = []
            for flavour, srcs, lib, name, py in wanted:
                os_ = [objs[(s, flavour, py)] for s in srcs]
                if lib:
                    os_ += [objs[(s, flavour, False)] for s in lib_sources() + [VERIF + "/valshim/valshim.cc"]]
                if py:
                    os_ += ["-lpython%d.%d" % sys.version_info[:2]]
                h = hashlib.sha256(repr((os_, FLAVOURS[flavour])).encode()).hexdigest()[:24]
                out = os.path.join(CACHE, "b_%s_%s" % (name, h))
                paths.append((out, flavour, os_))

            def link(p):
                out, flavour, os_ = p
                if not os.path.exists(out):
                    run_cc([CXX] + COMMON + FLAVOURS[flavour] + os_, out)
                else:
                    os.utime(out)
                return out
            for _ in ex.map(link, {p[0]: p for p in paths}.values()):  # parts may share their program
                pass
            return [p[0] for p in paths]


FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?)(?::\d+)*(?:\s|$)")


def crash_key(text):
    """A short class of a crash: kind plus the innermost frame inside /repo."""
    kind = "crash"
    m = re.search(r"runtime error: (.*)", text)
    if "VERIF-HANG" in text:
        kind = "hang"
    elif m:
        kind = "ubsan"
    elif "ThreadSanitizer" in text:
        kind = "tsan"
    elif (m2 := re.search(r"AddressSanitizer: ([\w-]+)", text)):
        kind = "asan:" + m2.group(1)
    elif "Assertion" in text:
        kind = "assert"
    for m in FRAME.finditer(text):
        if m.group(2).startswith(REPO + "/"):
            fn = re.sub(r"\(.*", "", m.group(1)).split("::")[-1]
            return "%s:%s:%s" % (kind, os.path.relpath(m.group(2), REPO), fn)
    return kind


class Worker:
    def __init__(self, cmd, k, step, to, args, tmp, env):
        self.cmd, self.k, self.step, self.to = cmd, k, step, to
        self.args, self.env = args, env
        self.dir = os.path.join(tmp, "w%d" % k)
        os.makedirs(self.dir, exist_ok=True)

    def once(self, extra, name, timeout):
        out = os.path.join(self.dir, name + ".json")
        journal = os.path.join(self.dir, name + ".journal")
        if os.path.exists(out):
            os.unlink(out)
        err = os.path.join(self.dir, name + ".err")
        cmd = self.cmd + self.args + ["--tmp", self.dir, "--journal", journal, "--out", out] + extra
        with open(err, "wb") as ef:
            try:
                rc = subprocess.run(cmd, stdout=ef, stderr=ef, env=self.env, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                rc = -999
        with open(err, "rb") as ef:
            ef.seek(max(0, os.path.getsize(err) - 60000))
            text = ef.read().decode("utf-8", "replace")
        data = json.load(open(out)) if os.path.exists(out) else None
        idx = None
        if os.path.exists(journal) and os.path.getsize(journal) >= 8:
            idx = int.from_bytes(read(journal)[:8], "little")
        return rc, data, text, idx

    def run(self, limit, budget):
        """Runs the shard to its end, collecting results and crashes."""
        res, crashes = [], []
        pos = self.k
        t0 = time.time()
        while pos < self.to:
            left = budget - (time.time() - t0)
            if left <= 0:
                break
            rc, data, text, idx = self.once(
                ["--from", str(pos), "--to", str(self.to), "--step", str(self.step),
                 "--limit", str(limit), "--budget", "%.1f" % left], "run%d" % len(crashes), left + 8 * limit + 30)
            if data is not None and rc in (0, 3):
                res.append(data)
                break
            if idx is None:
                return res, crashes, "worker failed to start (rc %s): %s" % (rc, text[-2000:])
            # The process died in case idx: run that case again alone, with more time.
            rc2, data2, text2, _ = self.once(["--only", str(idx), "--limit", str(3 * limit)], "re", 6 * limit + 60)
            hang = "VERIF-HANG" in text or rc == -999
            if rc2 in (0, 3) and data2 is not None and (hang or rc == -9):
                res.append(data2)  # only slow (or killed from outside): it has its answer now
            else:
                use = text2 if rc2 not in (0, 3) and text2.strip() else text
                if rc2 == -999:
                    use = "VERIF-HANG (wall clock)\n" + use
                crashes.append({"case": idx, "key": crash_key(use), "msg": "exit status %s\n%s" % (
                    rc2 if rc2 not in (0, 3) else rc, head_tail(use))})
                if len(crashes) >= 4:
                    break
            # The results of the cases before idx died with the process: run them again.
            if idx > pos:
                rc3, data3, _, _ = self.once(["--from", str(pos), "--to", str(idx), "--step", str(self.step),
                                              "--limit", str(3 * limit)], "pre", budget + 60)
                if rc3 in (0, 3) and data3 is not None:
                    res.append(data3)
            pos = idx + self.step
        return res, crashes, None


def head_tail(text, n=3500):
    i = max(text.find("runtime error"), text.find("ERROR: AddressSanitizer"), text.find("WARNING: ThreadSanitizer"),
            text.find("Assertion"), 0)
    i = max(0, i - 300)
    return text[i:i + n]


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--only", type=int)
    ap.add_argument("--part", type=int, default=0)
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--n", type=int)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--tier")
    o = ap.parse_args()
    tier = o.tier or os.environ.get("VERIF_TIER", "quick")
    seed = o.seed if o.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    b = Builder()
    if o.build:
        for pid in sorted(PROPS):
            build(b, pid, "thorough")
        return 0
    pid = o.id
    try:
        parts = build(b, pid, tier)
    except BuildError as e:
        print("BUILD FAILED for %s:\n%s" % (pid, e))
        return 2
    t_build = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        if o.only is not None:
            part = parts[o.part]
            env = dict(ENV, **part["env"])
            return subprocess.run(part["cmd"] + ["--seed", str(seed + 7919 * o.part), "--tier", tier, "--tmp", tmp, "--only",
                                                 str(o.only), "--limit", "600"], env=env).returncode
        return check(pid, tier, seed, parts, tmp, t0, t_build, o.n)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def build(b, pid, tier):
    p = PROPS[pid]
    wanted, parts = [], []
    for part in p["parts"]:
        if tier not in part.get("tiers", ("quick", "thorough")):
            continue
        n0 = len(wanted)
        if "py" in part:
            cmd = ["python3", os.path.join(VERIF, "harness", part["py"])]
        else:
            cmd = None
            srcs = [os.path.join(VERIF, "harness", s) for s in part["srcs"] + ["main.cc"]]
            srcs += [os.path.join(REPO, s) for s in part.get("repo_srcs", [])]
            wanted.append((part["flavour"], srcs, part.get("lib", True), pid, part.get("embed_python", False)))
        if "app" in part:
            wanted.append((part["flavour"], [os.path.join(REPO, part["app"])], True, pid + "_app", False))
        parts.append((part, cmd, n0))
    paths = b.programs(wanted) if wanted else []
    out = []
    for part, cmd, n0 in parts:
        q = dict(part)
        env = {"VERIF_REPO": REPO}
        if part.get("reuse"):
            env["ASAN_OPTIONS"] = ENV["ASAN_OPTIONS"] + REUSE
        i = n0
        if cmd is None:
            cmd = [paths[i]]
            i += 1
        if "app" in part:
            env["VERIF_APP"] = paths[i]
        q["cmd"] = part.get("wrap", []) + cmd
        q["env"] = env
        out.append(q)
    return out


def check(pid, tier, seed, parts, tmp, t0, t_build, n_override):
    prop = PROPS[pid]
    totals = {"cases": 0, "evaluations": 0}
    counters, distinct, samples, viols, errors = {}, set(), [], [], []
    for pi, part in enumerate(parts):
        n = n_override or part["n"][0 if tier == "quick" else 1]
        limit = part.get("limit", 20)
        budget = part.get("budget", (150, 1500))[0 if tier == "quick" else 1]
        jobs = part.get("jobs", NPROC)
        args = ["--seed", str(seed + 7919 * pi), "--tier", tier]
        env = dict(ENV, **part["env"])
        workers = [Worker(part["cmd"], k, jobs, n, args, os.path.join(tmp, "p%d" % pi), env) for k in range(jobs)]
        with ThreadPoolExecutor(jobs) as ex:
            results = list(ex.map(lambda w: w.run(limit, budget), workers))
        for res, crashes, error in results:
            if error:
                errors.append(error)
            for d in res:
                totals["cases"] += d["cases"]
                totals["evaluations"] += d["evaluations"]
                for k, v in d["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                distinct.update(d["distinct"])
                samples += d["samples"]
                viols += [dict(v, part=pi) for v in d["violations"]]
            viols += [dict(c, part=pi) for c in crashes]
    findings = [f for f in known_findings()["findings"] if f["property"] == pid]
    known, new = {}, []
    for v in viols:
        f = next((f for f in findings if f["key"] == v["key"]), None)
        if f:
            known.setdefault(f["key"], [f, 0])[1] += 1
        else:
            new.append(v)
    new.sort(key=lambda v: (len(v["msg"]), v["case"]))

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": totals["cases"],
            "monitor_checks": totals["evaluations"],
            "distinct_nontrivial": len(distinct),
            "rule": prop["rule"],
            "samples": samples[:6],
            "observed": dict(sorted(counters.items())),
            "instrumentation": [p.get("flavour", "python") + (", addresses reused" if p.get("reuse") else "") for p in parts],
        },
        "assumptions": prop.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(new),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for key, (f, cnt) in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s (seen %d times)" % (pid, f["what"], cnt))
    print("%s %s seed %d: %d cases, %d monitor checks, %d distinct, build %.1f s, total %.1f s" % (
        pid, tier, seed, totals["cases"], totals["evaluations"], len(distinct), t_build, time.time() - t0))
    if new:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        by_key = {}
        for v in new:
            by_key.setdefault(v["key"], []).append(v)
        for key, vs in sorted(by_key.items()):
            v = vs[0]
            name = re.sub(r"[^A-Za-z0-9_.-]+", "_", "%s_%s" % (pid, key))[:80]
            path = os.path.join(VERIF, "replays", name + ".txt")
            with open(path, "w") as f:
                f.write("property %s, tier %s, seed %d, part %d, case %d\n" % (pid, tier, seed, v["part"], v["case"]))
                f.write("replay: VERIF_TIER=%s python3 %s/run.py %s --seed %d --part %d --only %d\n\n[%s] %s\n" % (
                    tier, VERIF, pid, seed, v["part"], v["case"], key, v["msg"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  [%s] %d times; case %d: %s" % (key, len(vs), v["case"], v["msg"][:1500].replace("\n", "\n    ")))
        return 1
    if errors:
        print("NO ANSWER: " + errors[0])
        return 2
    need = prop.get("need", {})
    for k, least in need.items():
        if counters.get(k, 0) < least and n_override is None:
            print("NO ANSWER: observed %s = %d, expected at least %d" % (k, counters.get(k, 0), least))
            return 2
    if totals["cases"] == 0 or not distinct:
        print("NO ANSWER: nothing was observed")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
