#!/usr/bin/env python3
"""Content-hash build of /repo's libossia sources + the harnesses of /verif.

An object is reused only when the command line and the *content* of every file
it was compiled from (under /repo and /verif) are unchanged, so a check always
reflects /repo's current working tree whatever the time stamps say.
"""
import concurrent.futures as cf
import hashlib, json, os, re, subprocess, sys, time

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VP_BUILD", f"{VERIF}/build")
JOBS = int(os.environ.get("VP_JOBS", "0")) or max(2, os.cpu_count() or 2)
CXX = "g++"
COMMON = (
    f"-std=gnu++20 -w -pipe -I{VERIF}/shims -I{REPO}/src -I{REPO}/src/ossia-c -I{REPO}/src/ossia-cpp "
    f"-isystem {REPO}/3rdparty/timertt -isystem /usr/include/concurrentqueue/moodycamel "
    "-isystem /usr/include/readerwriterqueue -DRAPIDJSON_HAS_STDSTRING=1 -DTINYSPLINE_DOUBLE_PRECISION "
    "-DBOOST_MATH_DISABLE_FLOAT128=1 -DBOOST_ASIO_DISABLE_CONCEPTS=1 -DFMT_HEADER_ONLY=1 "
    "-DFMT_CONSTEVAL= -DFMT_DEPRECATED_OSTREAM=1 -DBOOST_ERROR_CODE_HEADER_ONLY"
).split()
VARIANTS = {
    "asan": "-Og -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr,null,alignment,object-size,pointer-overflow,nonnull-attribute,returns-nonnull-attribute -fsanitize-recover=undefined".split(),
    "tsan": "-Og -g1 -fno-omit-frame-pointer -fsanitize=thread".split(),
    "plain": "-O1 -g1".split(),
}
LIBS = "-pthread -lboost_filesystem -lsamplerate -ldl".split()
_hash = {}


def fhash(p):
    h = _hash.get(p)
    if h is None:
        try:
            with open(p, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash[p] = h
    return h


def tracked(p):
    return p.startswith(REPO + "/") or p.startswith(VERIF + "/")


class BuildError(Exception):
    pass


def parse_dep(path):
    txt = open(path).read().replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    out = set()
    for tok in re.split(r"(?<!\\)\s+", txt):
        if tok:
            out.add(os.path.normpath(tok.replace("\\ ", " ")))
    return sorted(out)


def stamp(cmd, deps):
    h = hashlib.sha1(" ".join(cmd).encode())
    for d in deps:
        h.update(d.encode() + b"\0" + fhash(d).encode())
    return h.hexdigest()


def fresh(obj, cmd):
    try:
        with open(obj + ".vp") as f:
            j = json.load(f)
        return os.path.exists(obj) and j["stamp"] == stamp(cmd, j["deps"])
    except (OSError, ValueError, KeyError):
        return False


def compile_one(src, obj, flags, extra=()):
    if src.endswith(".c"):
        cmd = ["gcc", *[f for f in COMMON if not f.startswith("-std=")], *flags]
    else:
        cmd = [CXX, *COMMON, *flags, *extra]
    if fresh(obj, cmd):
        return False
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + f".tmp{os.getpid()}"
    full = cmd + (["-x", "c++-header"] if obj.endswith(".gch") else ["-c"]) + [src, "-o", tmp, "-MD", "-MF", obj + ".d"]
    r = subprocess.run(full, capture_output=True, text=True, cwd="/")
    if r.returncode:
        try:
            os.unlink(tmp)
        except OSError:
            pass
        raise BuildError(f"{src}\n" + r.stderr[-6000:])
    deps = [d for d in parse_dep(obj + ".d") if tracked(d)]
    os.unlink(obj + ".d")
    # PCH-provided files
    os.replace(tmp, obj)
    with open(obj + ".vp.tmp", "w") as f:
        json.dump({"stamp": stamp(cmd, deps), "deps": deps}, f)
    os.replace(obj + ".vp.tmp", obj + ".vp")
    return True


def pch(variant):
    d = f"{BUILD}/{variant}/pch"
    os.makedirs(d, exist_ok=True)
    hdr = f"{d}/vp_force.hpp"
    want = f'#include "{VERIF}/shims/vp_force.hpp"\n'
    if not os.path.exists(hdr) or open(hdr).read() != want:
        open(hdr, "w").write(want)
    compile_one(f"{VERIF}/shims/vp_force.hpp", hdr + ".gch", VARIANTS[variant])
    with open(hdr + ".gch.vp") as f:
        st = json.load(f)["stamp"]
    return ["-include", hdr, f"-DVP_PCH=0x{st[:8]}u"] if False else ["-include", hdr], st


def sources(groups):
    out = []
    cur = None
    for line in open(f"{VERIF}/bin/sources.txt"):
        line = line.split("#")[0].strip()
        if not line:
            continue
        if line.startswith("["):
            cur = line[1:-1]
            continue
        if cur in groups or "all" in groups:
            out.append(line)
    return out


def build(variant, harness, groups, log=sys.stderr):
    """Builds harness/<harness>.cpp against the object groups; returns the exe."""
    t0 = time.time()
    flags = VARIANTS[variant]
    inc, pst = pch(variant)
    extra = [*inc, f"-DVP_PCH_STAMP=0x{pst[:7]}"]
    jobs = []
    for s in sources(groups):
        src = os.path.normpath(f"{REPO}/{s}")
        if not os.path.exists(src):
            raise BuildError(f"{src}: listed source is gone")
        jobs.append((src, f"{BUILD}/{variant}/obj/{s}.o"))
    hobj = f"{BUILD}/{variant}/h/{harness}.o"
    jobs.insert(0, (f"{VERIF}/harness/{harness}.cpp", hobj))
    n = 0
    errs = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(compile_one, s, o, flags, extra) for s, o in jobs]
        for f in fs:
            try:
                n += f.result()
            except BuildError as e:
                errs.append(str(e))
    if errs:
        raise BuildError("\n".join(errs))
    exe = f"{BUILD}/{variant}/bin/{harness}"
    objs = [o for _, o in jobs]
    ar = f"{BUILD}/{variant}/bin/{harness}.a"
    lcmd = [CXX, *flags, "-o", exe + ".tmp", hobj, "-Wl,--start-group", ar, "-Wl,--end-group", *LIBS]
    key = hashlib.sha1(" ".join(lcmd).encode())
    for o in objs:
        with open(o + ".vp") as f:
            key.update(json.load(f)["stamp"].encode())
    key = key.hexdigest()
    try:
        ok = os.path.exists(exe) and open(exe + ".vp").read() == key
    except OSError:
        ok = False
    if not ok:
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        if os.path.exists(ar):
            os.unlink(ar)
        if objs[1:]:
            subprocess.run(["ar", "rcsT", ar, *objs[1:]], check=True)
        else:
            subprocess.run(["ar", "rcs", ar], check=True)
        r = subprocess.run(lcmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("link:\n" + r.stderr[-6000:])
        os.replace(exe + ".tmp", exe)
        with open(exe + ".vp", "w") as f:
            f.write(key)
    print(f"[build] {variant}/{harness}: {n} compiled of {len(jobs)}, {time.time()-t0:.1f}s", file=log)
    return exe


if __name__ == "__main__":
    try:
        print(build(sys.argv[1], sys.argv[2], sys.argv[3:]))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
