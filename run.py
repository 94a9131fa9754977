#!/usr/bin/env python3
"""Builds and runs the check of one property (or several): run.py ID... [--tier quick|thorough].

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: it did not. Exit 2: no answer.
"""
import argparse
import collections
import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVIDENCE = os.path.join(VERIF, "evidence")
WORKERS = 8
WARN = ["-w"]

# How the library and the harness are compiled for a property.
FLAVOURS = {
    "plain": dict(cxx="g++", flags=["-O1", "-g1"]),
    "asan": dict(cxx="g++", flags=["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                   "-fno-omit-frame-pointer"]),
    "tsan": dict(cxx="g++", flags=["-O1", "-g1", "-fsanitize=thread"], strings=["-O1", "-g1", "-fsanitize=thread"]),
    # Instrumented like for ThreadSanitizer, but linked with the scheduler's runtime in mc/threads.cpp.
    "sched": dict(cxx="g++", flags=["-O1", "-g1"], lib=["-fsanitize=thread", "-fno-builtin"], extra=["threads"],
                  strings=["-O1", "-g1", "-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0"]),
    # Counts the blocks of the library that are executed, and what memory and string functions do.
    "cost": dict(cxx="g++", flags=["-O1", "-g1"], lib=["-fsanitize-coverage=trace-pc", "-fno-builtin"],
                 extra=["cost", "cost_search"], strings=["-O1", "-g1", "-fsanitize-coverage=trace-pc", "-fno-builtin"]),
}
COMMON = ["engine", "aspects", "families", "explore", "constants", "gen", "impl", "rebuild", "ref_lex", "ref_parse", "ref_dump", "ref_print"]
# (flavour, program) pairs of a property; each program explores its own part of the space.
PROGRAMS = {
    "C11": [("asan", "C11")],
    "C12": [("asan", "C12")],
    "C22": [("asan", "C22")],
    "C24": [("asan", "C24")],
    "C23": [("cost", "C23")],
    "C15": [("sched", "C15"), ("tsan", "C15_race")],
}


def programs(prop):
    return PROGRAMS.get(prop, [("plain", prop)])


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def read(path):
    with open(path, "rb") as f:
        return f.read()


# The generated parser and lexer that are committed in /repo belong to these versions of the grammar.
GENERATED = {"bison_parser.y": "9aeb9256a5466408e2d977aabf07710017eb274a60e37e54d80f2fb963b208b0",
             "flex_lexer.l": "f1540175e92cdc7fb6368803c8f3adadaedf78aa9b1288ff3dae5a32f0872524"}


def generated_by_us(parser, grammar, outputs):
    path = os.path.join(parser, grammar)
    if not os.path.exists(path):
        return False
    if hashlib.sha256(read(path)).hexdigest() != GENERATED[grammar]:
        return True
    return not all(os.path.exists(os.path.join(parser, o)) for o in outputs)


_sources = None


def library_sources():
    global _sources
    if not _sources:
        _sources = copy_sources()
    return _sources


def copy_sources():
    """A copy of /repo's sources with the parser and lexer generated, as the repository's build does it."""
    src = os.path.join(REPO, "src")
    files = sorted(os.path.join(d, f) for d, _, fs in os.walk(src) for f in fs
                   if f.endswith((".cpp", ".h", ".y", ".l", ".txt", ".c", ".hpp", ".inc")))
    key = sha(*[x for f in files for x in (os.path.relpath(f, src), read(f))])[:20]
    out = os.path.join(BUILD, "src-" + key)
    if os.path.exists(os.path.join(out, ".done")):
        os.utime(out)
        return out
    shutil.rmtree(out, ignore_errors=True)
    for f in files:
        to = os.path.join(out, os.path.relpath(f, src))
        os.makedirs(os.path.dirname(to), exist_ok=True)
        shutil.copy(f, to)
    parser = os.path.join(out, "parser")
    jobs = []
    if generated_by_us(parser, "bison_parser.y", ["bison_parser.cpp", "bison_parser.h"]):
        jobs.append(["bison", "bison_parser.y", "--output=bison_parser.cpp", "--defines=bison_parser.h"])
    if generated_by_us(parser, "flex_lexer.l", ["flex_lexer.cpp", "flex_lexer.h"]):
        jobs.append(["flex", "flex_lexer.l"])
    for j in jobs:
        p = subprocess.run(j, cwd=parser, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise BuildError(" ".join(j) + "\n" + p.stdout.decode(errors="replace"))
    open(os.path.join(out, ".done"), "w").close()
    return out


BASELINE = os.path.join(VERIF, "mc", "constants.txt")
TOKENS = re.compile(r'''//[^\n]*|/\*.*?\*/|#\s*include[^\n]*|[$@][\w$]+|(?P<string>"(?:[^"\\\n]|\\.)*"(?:\s*"(?:[^"\\\n]|\\.)*")*)|(?P<char>'(?:[^'\\\n]|\\.)+')|'''
                    r'''(?P<product>\b\d+[uUlL]*\s*(?:\*|<<)\s*\d+[uUlL]*\b)|(?P<number>\b(?:0[xX][0-9a-fA-F]+|[0-9]+)[uUlLzZ]*\b)|'''
                    r'''[A-Za-z_]\w*''', re.S)


def unescape(s):
    simple = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "a": "\a", "b": "\b", "f": "\f", "v": "\v"}

    def one(m):
        x = m.group(1)
        if x[0] == "x":
            return chr(int(x[1:], 16) & 255)
        if x[0] in "01234567":
            return chr(int(x, 8) & 255)
        return simple.get(x, x)
    return re.sub(r"\\(x[0-9a-fA-F]+|[0-7]{1,3}|.)", one, s, flags=re.S)


def constants_of(src):
    """How often the hand-written sources have each number and text."""
    found = collections.Counter()
    for d, _, fs in os.walk(src):
        for name in fs:
            if not name.endswith((".cpp", ".h", ".y", ".l", ".hpp", ".inc", ".c")) or \
                    name in ("bison_parser.cpp", "bison_parser.h", "flex_lexer.cpp", "flex_lexer.h"):
                continue
            text = read(os.path.join(d, name)).decode("latin-1")
            if name.endswith(".l"):
                for w in re.findall(r"^[^ \t\n]+", text, re.M):
                    for s in re.findall(r"[A-Za-z_]{2,}", w):
                        found["t " + s.encode("latin-1").hex()] += 1
            for m in TOKENS.finditer(text):
                if m.group("string") or m.group("char"):
                    one = r'''"((?:[^"\\\n]|\\.)*)"'''
                    s = "".join(map(unescape, re.findall(one, m.group("string")))) if m.group("string") else unescape(m.group("char")[1:-1])
                    if 0 < len(s) <= 200:
                        found["t " + s.encode("latin-1", "replace").hex()] += 1
                elif m.group("number"):
                    n = m.group("number").rstrip("uUlLzZ")
                    found["n %d" % (int(n, 16) if n[:2] in ("0x", "0X") else int(n))] += 1
                elif m.group("product"):
                    x, op, y = re.match(r"(\d+)[uUlL]*\s*(\*|<<)\s*(\d+)", m.group("product")).groups()
                    for n in (int(x), int(y), int(x) * int(y) if op == "*" else int(x) << min(int(y), 63)):
                        found["n %d" % n] += 1
    return found


def new_constants(src):
    """Writes the constants that these sources have more often than those in mc/constants.txt; returns the path."""
    path = os.path.join(src, ".constants")
    old = collections.Counter()
    with open(os.environ.get("MC_BASELINE", BASELINE)) as f:
        for line in f:
            n, c = line.rstrip("\n").split(" ", 1)
            old[c] = int(n)
    new = [c for c, n in constants_of(src).items() if n > old[c]]
    numbers = [int(c[2:]) for c in new if c[0] == "n" and 1 < int(c[2:]) < 1 << 64]
    numbers += [1 << v for v in numbers if 8 <= v <= 24]
    texts = [c for c in new if c[0] == "t"]
    tmp = path + ".%d.tmp" % os.getpid()
    with open(tmp, "w") as f:
        f.write("".join(x + "\n" for x in ["n %d" % n for n in list(dict.fromkeys(numbers))[:32]] + texts[:32]))
    os.replace(tmp, path)
    return path


_constants = None


def new_constants_of_library():
    global _constants
    if not _constants:
        _constants = new_constants(library_sources())
    return _constants


def compile_one(cxx, flags, source, include, key_files, objdir):
    key = sha(cxx, *flags, read(source), *key_files)[:32]
    obj = os.path.join(objdir, key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    tmp = obj + ".%d.tmp" % os.getpid()
    cmd = [cxx, "-std=c++17"] + flags + WARN + ["-I" + i for i in include] + ["-c", source, "-o", tmp]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[:4000])
    os.replace(tmp, obj)
    return obj


def build(props):
    """Builds the programs of the properties; returns {(flavour, program): executable}."""
    os.makedirs(BUILD, exist_ok=True)
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        prune()
        src = library_sources()
        lib = sorted(os.path.join(d, f) for d, _, fs in os.walk(src) for f in fs
                     if f.endswith(".cpp") and f != "conflict_test.cpp")
        lib_headers = [read(f) for f in sorted(os.path.join(d, f) for d, _, fs in os.walk(src) for f in fs
                                               if f.endswith((".h", ".hpp", ".inc")))]
        mc_headers = [read(f) for f in sorted(glob.glob(os.path.join(VERIF, "mc", "*.h")) +
                                              glob.glob(os.path.join(VERIF, "props", "*.h")))]
        wanted = sorted({p for prop in props for p in programs(prop)})
        exes, jobs = {}, {}
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as pool:
            def add(cxx, flags, source, include, headers):
                k = (cxx, tuple(flags), source)
                if k not in jobs:
                    jobs[k] = pool.submit(compile_one, cxx, flags, source, include, headers, objdir)
                return jobs[k]
            links = []
            for flavour, program in wanted:
                f = FLAVOURS[flavour]
                objs = [add(f["cxx"], f["flags"] + f.get("lib", []), s, [src], lib_headers)
                        for s in sorted(lib, key=lambda s: -os.path.getsize(s))]
                sources = [os.path.join(VERIF, "mc", m + ".cpp") for m in COMMON + f.get("extra", [])]
                sources.append(os.path.join(VERIF, "props", program + ".cpp"))
                objs += [add(f["cxx"], f["flags"], s, [src, os.path.join(VERIF, "mc"), os.path.join(VERIF, "props")],
                             lib_headers + mc_headers) for s in sources]
                if "strings" in f:
                    objs.append(add(f["cxx"], f["strings"], os.path.join(VERIF, "mc", "strings.cpp"), [], []))
                links.append((flavour, program, objs))
            for flavour, program, objs in links:
                objs = [o.result() for o in objs]
                f = FLAVOURS[flavour]
                exe = os.path.join(BUILD, "exe-" + program + "-" + sha(flavour, *objs)[:20])
                if not os.path.exists(exe):
                    tmp = exe + ".%d.tmp" % os.getpid()
                    cmd = [f["cxx"]] + f["flags"] + objs + ["-o", tmp, "-lpthread", "-ldl"]
                    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    if p.returncode:
                        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[:4000])
                    os.replace(tmp, exe)
                else:
                    os.utime(exe)
                exes[flavour, program] = exe
        return exes


def prune():
    """Keeps the build cache small: removes what was not used for long, oldest first."""
    entries = glob.glob(os.path.join(BUILD, "obj", "*")) + glob.glob(os.path.join(BUILD, "exe-*")) + \
        glob.glob(os.path.join(BUILD, "src-*"))
    if len(entries) < 1500:
        return
    entries.sort(key=os.path.getmtime)
    for e in entries[:len(entries) - 800]:
        if os.path.isdir(e):
            shutil.rmtree(e, ignore_errors=True)
        else:
            os.unlink(e)


LOCALES = [("de_DE", "UTF-8"), ("tr_TR", "UTF-8"), ("tr_TR", "ISO-8859-9"), ("de_DE", "ISO-8859-1")]


def locales():
    """Builds locales other than "C" in the build directory, if the system's sources of them are there."""
    d = os.path.join(BUILD, "locale")
    os.makedirs(d, exist_ok=True)
    jobs = []
    for name, charset in LOCALES:
        to = os.path.join(d, name + "." + charset)
        if not os.path.exists(to):
            jobs.append(subprocess.Popen(["localedef", "-c", "-i", name, "-f", charset, to], stdin=subprocess.DEVNULL,
                                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    for j in jobs:
        j.wait()
    return d


def environment(outdir):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "MALLOC_"))}
    env["GLIBC_TUNABLES"] = "glibc.malloc.perturb=165"
    env["MC_SCRATCH"] = outdir
    env["MC_SRC"] = library_sources()
    env["MC_CONSTANTS"] = new_constants_of_library()
    env["LOCPATH"] = os.path.join(BUILD, "locale")
    log = os.path.join(outdir, "sanitizer")
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:log_path=%s:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=165:quarantine_size_mb=32" % log
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99:log_path=%s" % log
    env["TSAN_OPTIONS"] = "exitcode=98:halt_on_error=1:log_path=%s" % log
    return env


def start(exe, args, outdir, name, **more):
    out = open(os.path.join(outdir, "stdout." + name), "wb")
    return subprocess.Popen([exe] + args, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.DEVNULL, cwd=outdir,
                            env=dict(environment(outdir), **more))


def run(exe, args, outdir, name, timeout):
    """Returns (return code or None after a time-out, its output)."""
    p = start(exe, args, outdir, name)
    try:
        code = p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        code = None
    text = read(os.path.join(outdir, "stdout." + name)).decode(errors="replace")
    return code, text


def sanitizer_text(outdir):
    text = ""
    for f in sorted(glob.glob(os.path.join(outdir, "sanitizer.*"))):
        text += read(f).decode(errors="replace")
        os.unlink(f)
    return text


def fields(path, tag):
    with open(path, errors="replace") as f:
        return [l[len(tag) + 1:].rstrip("\n") for l in f if l.startswith(tag + " ")]


def case_id(path):
    return sha(*(fields(path, "phase") + fields(path, "arg")))[:16]


def known_findings(prop):
    """Findings that are recorded, not repaired: `open: property=<id> case=<hash> <what fails>`."""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == "open:" and w[1] == "property=" + prop:
                known[w[2].split("=", 1)[1]] = w[3].strip()
    return known


def explore(prop, exe, flavour, program, tier, deadline):
    """Runs all workers of one program; returns (statistics, violations, problems)."""
    outdir = os.path.join(BUILD, "run", prop + "-" + program + "-" + str(os.getpid()))
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    # Workers end by themselves some time before they would be killed, so that what they did is reported.
    until = deadline - min(60, max(0, deadline - time.time()) * 0.15)
    procs = [start(exe, ["explore", tier, str(i), str(WORKERS), outdir], outdir, str(i), MC_UNTIL=str(int(until))) for i in range(WORKERS)]
    problems = []
    dead = {}
    capped = []
    for i, p in enumerate(procs):
        try:
            code = p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            capped.append(i)
            continue
        if code:
            dead[i] = code
    stats = dict(cases=0, visited=0, phases={}, samples=[], bounds={}, workers_completed=0)
    for i in range(WORKERS):
        f = os.path.join(outdir, "done.%d" % i)
        if not os.path.exists(f):
            continue
        d = json.loads(read(f))
        stats["workers_completed"] += 1
        stats["cases"] += d["cases"]
        stats["bounds"] = d["bounds"]
        for k, (visited, decided) in d["phases"].items():
            a = stats["phases"].setdefault(k, [0, 0])
            a[0] += visited
            a[1] += decided
            stats["visited"] += visited
        stats["samples"] += d["samples"] if i == 0 else []
        if d["late"]:
            capped.append(i)
    if capped:
        problems.append("time limit reached by workers %s: their part of the space was not finished" % capped)
    for name in ("cases", "outcomes"):
        files = glob.glob(os.path.join(outdir, name + ".*"))
        stats["distinct_" + name] = int(subprocess.run([exe, "merge"] + files, stdout=subprocess.PIPE,
                                                              env=environment(outdir)).stdout or 0)

    candidates = [(f, False) for f in sorted(glob.glob(os.path.join(outdir, "violation.*")))]
    for i, code in dead.items():
        f = os.path.join(outdir, "crash-case.%d" % i)
        if not recover(exe, outdir, i, f):
            if code == -signal.SIGKILL:
                problems.append("worker %d was killed before its first case" % i)
                continue
            with open(f, "w") as o:
                o.write("property %s\nphase start of the process\n" % prop)
        hang = os.path.exists(os.path.join(outdir, "crash%d" % i))
        with open(f, "a") as o:
            o.write("detail %s (exit status %s)\n" % ("the call does not end" if hang else "the process crashed", code))
            for line in sanitizer_text(outdir).splitlines()[:60]:
                o.write("detail " + line + "\n")
        candidates.append((f, True))
    violations = []
    seen = set()
    for f, crash in candidates:
        if case_id(f) in seen:
            continue
        seen.add(case_id(f))
        if len(violations) >= 5:
            break
        worker = f.rsplit(".", 2)[1] if not crash else f.rsplit(".", 1)[1]
        start_up = fields(f, "phase") == ["start of the process"]
        kept = None if start_up else keep(prop, f, exe, flavour, program, outdir)
        if kept:
            violations.append(kept)
            continue
        # Not reproduced by its case alone: does the same exploration reach it again?
        again = outdir + "-again"
        shutil.rmtree(again, ignore_errors=True)
        os.makedirs(again)
        code, _ = run(exe, ["explore", tier, worker, str(WORKERS), again], again, worker,
                      max(60, min(400, deadline + 100 - time.time())))
        same = [g for g in glob.glob(os.path.join(again, "violation.*")) if case_id(g) == case_id(f)]
        if crash and code not in (0, None):
            g = os.path.join(again, "crash-case")
            found = recover(exe, again, worker, g)
            if (not found and start_up) or (found and not start_up and case_id(g) == case_id(f)):
                same = [g]
        if same:
            with open(f, "a") as o:
                o.write("note only after the preceding cases of the exploration: explore %s %s %d\n" %
                        (tier, worker, WORKERS))
            violations.append(keep(prop, f, exe, flavour, program, outdir, True))
        else:
            problems.append("not reproducible, not reported: " + read(f).decode(errors="replace")[:2000])
        shutil.rmtree(again, ignore_errors=True)
    shutil.rmtree(outdir, ignore_errors=True)
    return stats, violations, problems


def recover(exe, outdir, worker, f):
    """Makes a replayable file of the record that a dead worker left."""
    current = os.path.join(outdir, "current.%s" % worker)
    return subprocess.run([exe, "recover", current, f], env=environment(outdir)).returncode == 0


def keep(prop, f, exe, flavour, program, outdir, confirmed=False):
    """Replays a case in a fresh process; if it fails again, stores it and returns (id, path)."""
    if not confirmed:
        # Freely running threads need several attempts.
        until = time.time() + 120
        for attempt in range(100 if flavour == "tsan" else 1):
            code, text = run(exe, ["replay", f], outdir, "replay", 120)
            if code != 0 or time.time() > until:
                break
        if code == 0:
            return None
        with open(f, "a") as o:
            o.write("note replayed: %s\n" % ("time-out" if code is None else "exit status %d" % code))
            for line in sanitizer_text(outdir).splitlines()[:80]:
                o.write("sanitizer " + line + "\n")
    with open(f, "a") as o:
        o.write("program %s %s\n" % (flavour, program))
    os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
    cid = case_id(f)
    path = os.path.join(BUILD, "replay", "%s-%s" % (prop, cid))
    shutil.copy(f, path)
    return cid, path


def check(prop, tier, exes, limit):
    t0 = time.time()
    deadline = t0 + limit
    known = known_findings(prop)
    total = dict(cases=0, visited=0, distinct_cases=0, distinct_outcomes=0)
    phases, samples, bounds, problems, violations = {}, [], {}, [], []
    unfinished = False
    for flavour, program in programs(prop):
        s, v, p = explore(prop, exes[flavour, program], flavour, program, tier, deadline)
        for k in total:
            total[k] += s[k]
        phases.update(s["phases"])
        samples += s["samples"]
        bounds.update(s["bounds"])
        violations += v
        problems += p
        unfinished = unfinished or s["workers_completed"] == 0
        if s["workers_completed"] < WORKERS and not v:
            problems.append("%s: only %d of %d workers finished" % (program, s["workers_completed"], WORKERS))
    fresh = [(c, p) for c, p in violations if c not in known]
    for cid, what in known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for cid, path in fresh:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        for line in [l for tag in ("text", "detail", "note", "sanitizer") for l in fields(path, tag)][:12]:
            print("    " + line[:600])
    for p in problems:
        print("note: " + p)
    os.makedirs(EVIDENCE, exist_ok=True)
    evidence = dict(
        property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
        coverage=dict(
            states=total["distinct_outcomes"], transitions=total["visited"],
            traces_validated_against_impl=total["distinct_cases"],
            states_rule="distinct results of the implementation (canonical statements, or error and position; per "
                        "property as described in DESIGN.md)",
            transitions_rule="enumerated steps: inputs, histories or schedules visited, repetitions included",
            traces_rule="distinct inputs, histories or schedules that were run on the implementation and decided",
            phases={k: dict(visited=a, decided=b) for k, (a, b) in sorted(phases.items())},
            bounds=bounds, samples=samples[:12], exhaustive=not problems,
            caps=[p[:300] for p in problems]),
        assumptions=["exhaustive within the stated bounds only"],
        violations=len(fresh), wall_s=round(time.time() - t0, 2))
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s %s: %d traces decided, %d visited, %d distinct outcomes, %.1f s: %s" % (
        prop, tier, total["distinct_cases"], total["visited"], total["distinct_outcomes"], time.time() - t0,
        "%d violations" % len(fresh) if fresh else "holds"))
    sys.stdout.flush()
    if not violations and unfinished:
        print("no answer: the exploration was not finished by any worker")
        return None
    return not fresh


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("props", nargs="*")
    ap.add_argument("--tier", default=None, choices=["quick", "thorough"])
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--limit", type=float, default=None, help="seconds of exploration")
    ap.add_argument("--constants", action="store_true", help="rewrite mc/constants.txt from the repository")
    ap.add_argument("--replay", help="replay file written by an earlier run")
    a = ap.parse_args()
    if a.constants:
        with open(BASELINE, "w") as f:
            f.write("".join("%d %s\n" % (n, c) for c, n in sorted(constants_of(os.path.join(REPO, "src")).items())))
        return 0
    tier = a.tier or ("thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick")
    props = a.props or sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(VERIF, "props", "C??.cpp")))
    if a.replay:
        props = fields(a.replay, "property")
    try:
        exes = build(props)
    except BuildError as x:
        print("build failed: %s" % x)
        return 2
    if "C17" in props:
        locales()
    if a.build_only:
        return 0
    if a.replay:
        flavour, program = fields(a.replay, "program")[0].split()
        outdir = os.path.join(BUILD, "run", "replay-%d" % os.getpid())
        os.makedirs(outdir)
        code, text = run(exes[flavour, program], ["replay", os.path.abspath(a.replay)], outdir, "replay", 300)
        print(text + sanitizer_text(outdir))
        shutil.rmtree(outdir, ignore_errors=True)
        return 0 if code == 0 else 1
    limit = a.limit or (600 if tier == "quick" else 840)
    results = [check(p, tier, exes, limit) for p in props]
    return 1 if False in results else 2 if None in results else 0


if __name__ == "__main__":
    sys.exit(main())
