#!/usr/bin/env python3
"""Build steps: engine, bitcode of /repo's current sources, harness modules, native replay."""
import glob, hashlib, os, subprocess, sys, concurrent.futures as cf
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MSE_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
BUILD = os.path.join(VERIF, ".build")
CXX = "clang++-18"
COMMON = ["-std=gnu++17", "-O1", "-DNDEBUG", "-DXML_STATIC", "-Wno-everything", "-Wno-invalid-constexpr",
          "-fno-vectorize", "-fno-slp-vectorize", "-fno-pie", "-fno-pic", "-ffp-contract=off",
          "-I" + REPO + "/include"]
RTFLAGS = ["-fno-builtin", "-fno-access-control"]
HFLAGS = ["-fno-access-control", "-I" + VERIF + "/rt", "-I" + VERIF + "/harness", "-I" + REPO + "/mdflib/src", "-I" + REPO]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b"\0")
    return m.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def engine():
    out = os.path.join(BUILD, "mse")
    r = sh(["make", "-s", "-C", os.path.join(VERIF, "engine")])
    if r.returncode or not os.path.exists(out):
        raise RuntimeError("engine build failed:\n" + r.stdout[-3000:])
    return out


def headers_hash():
    fs = sorted(glob.glob(REPO + "/include/**/*", recursive=True) + glob.glob(REPO + "/mdflib/src/*.h") +
                glob.glob(REPO + "/mdflib/src/*.hpp"))
    return h(*[p.encode() + b":" + rd(p) for p in fs if os.path.isfile(p)])


def verif_headers_hash():
    fs = sorted(glob.glob(VERIF + "/rt/*.h") + glob.glob(VERIF + "/harness/*.h"))
    return h(*[p.encode() + b":" + rd(p) for p in fs])


def sources():
    return sorted(glob.glob(REPO + "/mdflib/src/*.cpp"))


def _obj(args):
    src, flags, key, suffix = args
    out = os.path.join(CACHE, key + suffix)
    if os.path.exists(out):
        return out, None
    tmp = out + ".%d.tmp" % os.getpid()
    r = sh([CXX] + flags + ["-c", src, "-o", tmp])
    if r.returncode:
        return None, "%s:\n%s" % (src, r.stdout[-2000:])
    if key[0] == "l":   # scheduling points after atomic stores
        r = sh([os.path.join(BUILD, "mse"), "--points", tmp, tmp + "2"])
        if r.returncode:
            return None, "%s: %s" % (src, r.stdout[-2000:])
        os.replace(tmp + "2", tmp)
    os.replace(tmp, out)
    return out, None


def compile_many(jobs):
    os.makedirs(CACHE, exist_ok=True)
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        res = list(ex.map(_obj, jobs))
    errs = [e for o, e in res if e]
    if errs:
        raise RuntimeError("compilation failed:\n" + "\n".join(errs[:3]))
    return [o for o, e in res]


def link(objs, key):
    out = os.path.join(CACHE, key + ".bc")
    if os.path.exists(out):
        return out
    tmp = out + ".%d.tmp" % os.getpid()
    r = sh(["llvm-link-18", "-o", tmp] + objs)
    if r.returncode:
        raise RuntimeError("llvm-link failed:\n" + r.stdout[-3000:])
    os.replace(tmp, out)
    return out


PCH_HEADERS = """string vector cstdint utility sstream memory cstdio algorithm map string_view array filesystem cstring
optional functional iostream fstream chrono stdexcept limits ctime iomanip cstddef thread set ios cmath cerrno atomic
unordered_map exception deque codecvt climits variant type_traits system_error streambuf stack ostream mutex istream
cwchar cstdlib condition_variable bitset""".split()


def pch(fl):
    """Precompiled standard headers only; nothing of the repository."""
    os.makedirs(CACHE, exist_ok=True)
    key = "p" + h(" ".join(fl), " ".join(PCH_HEADERS))
    out = os.path.join(CACHE, key + ".pch")
    if not os.path.exists(out):
        src = os.path.join(CACHE, key + ".h")
        with open(src, "w") as f:
            f.write("".join("#include <%s>\n" % x for x in PCH_HEADERS))
        r = sh([CXX] + fl + ["-x", "c++-header", src, "-o", out + ".tmp"])
        if r.returncode:
            raise RuntimeError("pch failed:\n" + r.stdout[-2000:])
        os.replace(out + ".tmp", out)
    return ["-include-pch", out]


_memo = {}


def lib_objs():
    if "objs" in _memo:
        return _memo["objs"]
    engine()
    hh = headers_hash()
    fl = COMMON + ["-emit-llvm"]
    pfl = fl + pch(COMMON)
    rt = VERIF + "/rt/rt.cpp"
    rfl = fl + RTFLAGS + ["-I" + VERIF + "/rt"]
    jobs = [(rt, rfl, "r" + h(rd(rt), verif_headers_hash(), " ".join(rfl)), ".bc")]
    jobs += [(s, pfl, "l" + h("points", s, rd(s), hh, " ".join(fl)), ".bc") for s in sources()]
    objs = compile_many(jobs)
    _memo["objs"] = (objs, hh)
    return _memo["objs"]


def harness_obj(name, defs=()):
    objs, hh = lib_objs()
    src = os.path.join(VERIF, "harness", name + ".cpp")
    fl = COMMON + HFLAGS + ["-emit-llvm"] + list(defs)
    (o,) = compile_many([(src, fl, "h" + h(rd(src), hh, verif_headers_hash(), " ".join(fl)), ".bc")])
    return o


def harness_bc(name, defs=()):
    objs, hh = lib_objs()
    o = harness_obj(name, defs)
    # the model runtime comes first: its strong definitions win over inline copies
    return link(objs + [o], "H" + h(*objs, o))


def _native_obj(args):
    bc, san = args
    out = bc[:-3] + {False: ".o", True: ".asan.o", "race": ".race.o"}[san]
    if os.path.exists(out):
        return out, None
    tmp = out + ".%d" % os.getpid()
    src = bc
    if san:
        src = tmp + ".bc"
        r = sh(["opt-18", "-passes=forceattrs", "-force-attribute=sanitize_address", "-o", src, bc] if san is True else
               ["opt-18", "-passes=forceattrs,tsan-module,function(tsan)", "-force-attribute=sanitize_thread",
                "-tsan-instrument-func-entry-exit=0", "-o", src, bc])
        if r.returncode:
            return None, r.stdout
    r = sh([CXX, "-x", "ir", "-O1" if san is True else "-O0", "-fno-pie", "-fno-pic", "-Wno-everything"] +
           (["-fsanitize=address", "-fno-omit-frame-pointer"] if san is True else []) + ["-c", src, "-o", tmp])
    if san and os.path.exists(src):
        os.remove(src)
    if r.returncode:
        return None, r.stdout[-2000:]
    os.replace(tmp, out)
    return out, None


WRAP = ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_cond_clockwait", "pthread_cond_timedwait",
        "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast", "nanosleep"]


def native_bin(name, defs=(), san=True):
    """Native executable from the same per-file bitcode, with the real libstdc++, zlib and expat in
    place of the model runtime; used to replay counterexamples and to validate sampled paths."""
    objs, hh = lib_objs()
    bcs = list(objs[1:]) + [harness_obj(name, defs)]
    nat = VERIF + "/rt/native.cpp"
    nfl = COMMON + HFLAGS + ["-emit-llvm"] + (["-DRACE"] if san == "race" else [])
    (no,) = compile_many([(nat, nfl, "t" + h(rd(nat), verif_headers_hash(), " ".join(nfl)), ".bc")])
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        res = list(ex.map(_native_obj, [(b, san) for b in bcs] + [(no, False if san == "race" else san)]))
    errs = [e for o, e in res if e]
    if errs:
        raise RuntimeError("native code generation failed:\n" + "\n".join(errs[:3]))
    os_ = [o for o, e in res]
    out = os.path.join(CACHE, "N" + h("wrap", *os_))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh([CXX, "-no-pie", "-rdynamic"] + (["-fsanitize=address"] if san is True else []) + ["-o", tmp] + os_ +
               ["-Wl," + ",".join("--wrap=" + f for f in WRAP), "-lz", "-lexpat", "-lpthread", "-ldl"])
        if r.returncode:
            raise RuntimeError("native link failed:\n" + r.stdout[-3000:])
        os.replace(tmp, out)
    return out


if __name__ == "__main__":
    if sys.argv[1] == "setup":
        print(engine())
        print(len(lib_objs()[0]))
    elif sys.argv[1] == "bc":
        print(harness_bc(sys.argv[2]))
    elif sys.argv[1] == "native":
        print(native_bin(sys.argv[2], san=len(sys.argv) > 3))
