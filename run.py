#!/usr/bin/env python3
"""Runs one check: build the harness with /repo's current sources, run the property, write evidence/<ID>.json.

  run.py <ID>                 quick or thorough by VERIF_TIER (default quick), seed from VERIF_SEED
  run.py <ID> --replay FILE   replay a stored failing case
  run.py --build-all          build every harness
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(V, "build")
BASE = ["-std=c++17", "-DASIO_STANDALONE", "-DASIO_HAS_STD_CHRONO", "-I" + REPO + "/include", "-I" + V + "/harness",
        "-pthread", "-fno-omit-frame-pointer", "-gline-tables-only"]
ASAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
TSAN = ["-O1", "-fsanitize=thread"]
PLAIN = ["-O1"]

# harness -> own sources, sources of /repo not needed by it, flags, link flags
TARGETS = {
    "sim": dict(src=["engine.cpp", "coop.cpp", "sim.cpp", "sim_member.cpp", "sim_main.cpp"], skip=["asio_service.cxx"], flags=ASAN,
                link=["-rdynamic", "-ldl"]),
    "data": dict(src=["engine.cpp", "data_main.cpp"], skip=["asio_service.cxx"], flags=ASAN, link=["-rdynamic", "-ldl"]),
    "conc": dict(src=["engine.cpp", "sched.cpp", "conc_main.cpp", "conc_raft.cpp", "conc_threads.cpp"], skip=["asio_service.cxx"], flags=ASAN, link=["-rdynamic", "-ldl"],
                 inst=["-fsanitize-coverage=bb,trace-pc,trace-loads,trace-stores"], inst_own=["conc_main.cpp", "conc_raft.cpp", "conc_threads.cpp"]),
    "net": dict(src=["engine.cpp", "net_main.cpp"], skip=[], flags=ASAN,
                link=["-rdynamic", "-ldl", "-Wl,--wrap=_ZN11cornerstone11raft_server11process_reqERNS_7req_msgE"]),
}
CHECKS = {p: ["sim"] for p in
          "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C28 C29 C30 C31 C34".split()}
CHECKS.update({p: ["data"] for p in "C16 C17 C18 C20 C21 C32".split()})
CHECKS["ALL"] = ["sim"]  # every monitor of the simulator at once, not a property
CHECKS["C09"] = ["sim", "conc"]
CHECKS["C28"] = ["sim", "conc"]
CHECKS["C10"] = ["sim", "data"]
CHECKS.update({p: ["net"] for p in "C22 C23 C24 C25".split()})
CHECKS.update({p: ["conc"] for p in "C19 C26 C27 C33".split()})


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(d, exts):
    parts = []
    for root, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                parts += [os.path.join(root, f), read(os.path.join(root, f))]
    return sha(*parts)


class BuildError(Exception):
    pass


def run_cc(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:])


def compile_one(src, flags, hdr):
    obj = os.path.join(OUT, "obj", sha(hdr, " ".join(flags), src, read(src)) + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        run_cc(["clang++"] + BASE + flags + ["-w", "-c", src, "-o", tmp])
        os.replace(tmp, obj)
    else:
        os.utime(obj)
    return obj


def build(name):
    t = TARGETS[name]
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    hdr = tree_hash(REPO + "/include", (".hxx", ".h", ".hpp", ".hh")) + tree_hash(V + "/harness", (".hpp",))
    hdr += tree_hash(REPO + "/src", (".hxx", ".h", ".hpp", ".hh", ".inc", ".ipp"))
    srcs = sorted(os.path.join(REPO, "src", f) for f in os.listdir(REPO + "/src") if f.endswith((".cxx", ".cpp", ".cc")))
    use = [s for s in srcs if os.path.basename(s) not in t["skip"]]
    rest = [s for s in srcs if s not in use]
    flags = t["flags"]

    def extra(s):  # instrumentation for the code under test and for harness code that instantiates its templates
        own_src = os.path.dirname(s) == os.path.join(V, "harness")
        return t.get("inst", []) if not own_src or os.path.basename(s) in t.get("inst_own", []) else []

    def comp(lst):
        order = sorted(lst, key=lambda s: -os.path.getsize(s))
        with ThreadPoolExecutor(8) as ex:
            return dict(zip(order, ex.map(lambda s: compile_one(s, flags + extra(s), hdr), order)))

    own = [os.path.join(V, "harness", s) for s in t["src"]]
    objs = comp(own + use)

    def link(extra):
        o = [objs[s] for s in own]
        lib = [objs[s] for s in use + extra]
        exe = os.path.join(OUT, name + "-" + sha(" ".join(flags + t["link"]), *sorted(o + lib)))
        if os.path.exists(exe):
            os.utime(exe)
            return exe
        ar = exe + ".%d.a" % os.getpid()
        run_cc(["ar", "rcs", ar] + lib)
        try:
            run_cc(["clang++"] + flags + ["-pthread"] + o + [ar] + t["link"] + ["-o", exe + ".tmp%d" % os.getpid()])
        finally:
            os.unlink(ar)
        os.replace(exe + ".tmp%d" % os.getpid(), exe)
        return exe

    try:
        exe = link([])
    except BuildError:
        if not rest:
            raise
        objs.update(comp(rest))
        exe = link(rest)
    prune()
    return exe


def prune():
    for d, keep in ((os.path.join(OUT, "obj"), 300), (OUT, 24)):
        fs = [os.path.join(d, f) for f in os.listdir(d)]
        fs = sorted((f for f in fs if os.path.isfile(f)), key=os.path.getmtime, reverse=True)
        for f in fs[keep:]:
            try:
                os.unlink(f)
            except OSError:
                pass


def main():
    args = sys.argv[1:]
    if args and args[0] == "--build-all":
        for n in TARGETS:
            t0 = time.time()
            build(n)
            print("built %s in %.0f s" % (n, time.time() - t0))
        return 0
    if not args or args[0] not in CHECKS:
        print("usage: run.py <%s> [--replay FILE]" % "|".join(sorted(CHECKS)))
        return 2
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    t0 = time.time()
    try:
        exes = [build(n) for n in CHECKS[pid]]
    except BuildError as e:
        print("build failed:\n" + str(e))
        return 3
    tb = time.time() - t0
    os.makedirs(V + "/evidence/replays", exist_ok=True)
    env = dict(os.environ)
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS"):
        env.pop(k, None)
    parts, rc = [], 0
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 1 << 30 else None
    scratch = env["VERIF_SCRATCH"] = tempfile.mkdtemp(prefix="verif_%s_" % pid, dir=base)
    try:
        return run_check(args, pid, tier, seed, exes, env, parts, rc, t0, tb)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_check(args, pid, tier, seed, exes, env, parts, rc, t0, tb):
    for name, exe in zip(CHECKS[pid], exes):
        if "--replay" in args:
            f = args[args.index("--replay") + 1]
            if os.path.basename(f).split("-")[0] != pid:
                print("replay file is for another property")
                return 2
            if os.path.basename(f).endswith(tuple("-%s.json" % t for t in TARGETS)) and not f.endswith("-%s.json" % name):
                continue
            return subprocess.call([exe, "--prop", pid, "--replay", f] + (["-v"] if "-v" in args else []), env=env, cwd=V)
        part = os.path.join(OUT, "evidence-%s-%s-%d.json" % (pid, name, os.getpid()))
        cmd = [exe, "--prop", pid, "--tier", tier, "--seed", seed, "--out", part, "--replaydir", V + "/evidence/replays", "--target", name,
               "--known", V + "/known_findings.txt", "--time", "400" if tier == "quick" else "3000"] + [a for a in args[1:]]
        r = subprocess.call(cmd, env=env, cwd=V)
        if os.path.exists(part):
            parts.append((name, json.load(open(part))))
            os.unlink(part)
        if r not in (0, 1):
            print("harness ended with %d" % r)
            return 4
        rc = max(rc, r)
        if rc:
            break
    if not parts:
        print("no evidence written")
        return 4
    ev = parts[0][1]
    if len(parts) > 1:
        c = ev["coverage"]
        c["parts"] = {n: {k: v for k, v in p["coverage"].items() if k != "samples"} for n, p in parts}
        c["evaluations"] = sum(p["coverage"]["evaluations"] for _, p in parts)
        c["distinct_nontrivial"] = sum(p["coverage"]["distinct_nontrivial"] for _, p in parts)
        c["samples"] = sum((p["coverage"]["samples"] for _, p in parts), [])
        c["rule"] = " || ".join(p["coverage"]["rule"] for _, p in parts)
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["build_s"] = round(tb, 2)
    with open(V + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
    return rc


if __name__ == "__main__":
    sys.exit(main())
