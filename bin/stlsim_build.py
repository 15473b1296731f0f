#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree into /verif/build (content-hash cached)."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("STLSIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")
SCEN = ["world.cc", "scen_threads.cc", "scen_data.cc", "scen_io.cc", "scen_monitor.cc", "scen_query.cc", "scen_cost.cc", "scen_env.cc", "table.cc"]
RUNTIME = ["rt.cc", "main.cc"]
WRAP = ["memcpy", "memmove", "memset", "memcmp", "strlen",
        "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_",
        "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_",
        "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base",
        "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base",
        "_ZNSt8__detail15_List_node_base7_M_hookEPS0_",
        "_ZNSt8__detail15_List_node_base9_M_unhookEv"]
INST = ["-std=gnu++17", "-O1", "-g1", "-w", "-fpermissive", "-fno-pie", "-DNDEBUG", "-DFMT_SHARED",
        "-fsanitize=thread", "-I" + os.path.join(BUILD, "inc0"), "-I" + SIM,
        "-I" + REPO + "/src/include", "-I" + REPO + "/src/parser", "-I" + REPO + "/src/robust_semantics",
        "-I" + REPO + "/src/core"]
PLAIN = ["-std=gnu++17", "-O2", "-g", "-w", "-fno-pie", "-fno-threadsafe-statics", "-I" + SIM]


def lib_sources():
    out = []
    for d in ("core", "parser", "robust_semantics"):
        out += sorted(glob.glob(os.path.join(REPO, "src", d, "**", "*.cc"), recursive=True))
        out += sorted(glob.glob(os.path.join(REPO, "src", d, "**", "*.cpp"), recursive=True))
    out += sorted(glob.glob(os.path.join(REPO, "src", "*.cc")))
    return out


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def headers():
    r = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        r += [os.path.join(root, f) for f in files if not f.endswith((".cc", ".cpp"))]
    return sorted(r)


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))


def compile_one(job):
    src, flags, key, prefix = job
    h = hashlib.sha256((key + " ".join(flags)).encode())
    with open(src, "rb") as f:
        h.update(f.read())
    h.update(src.encode())
    obj = os.path.join(BUILD, "obj", prefix + "-" + os.path.basename(src) + "-" + h.hexdigest()[:20] + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        run(["g++"] + flags + ["-c", src, "-o", tmp])
        os.rename(tmp, obj)
    else:
        os.utime(obj)
    return obj


def build_locale():
    d = os.path.join(BUILD, "locale")
    if os.path.isdir(os.path.join(d, "de_DE.UTF-8")):
        return
    os.makedirs(d, exist_ok=True)
    subprocess.run(["localedef", "-i", "de_DE", "-f", "UTF-8", os.path.join(d, "de_DE.UTF-8")],
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def build_config_header():
    """libstdc++'s configuration with std::string instantiated here (and so instrumented), not in libstdc++.so"""
    out = os.path.join(BUILD, "inc0", "bits", "c++config.h")
    if os.path.exists(out):
        return
    os.makedirs(os.path.dirname(out), exist_ok=True)
    p = subprocess.run(["g++", "-x", "c++", "-M", "-"], input="#include <bits/c++config.h>\n", stdout=subprocess.PIPE, text=True)
    src = [w for w in p.stdout.replace("\\\n", " ").split() if w.endswith("bits/c++config.h")]
    if not src:
        raise BuildError("cannot find bits/c++config.h")
    text = open(src[0]).read()
    new = text.replace("# define _GLIBCXX_EXTERN_TEMPLATE 1", "# define _GLIBCXX_EXTERN_TEMPLATE 0")
    if new == text:
        raise BuildError("unexpected bits/c++config.h")
    with open(out + ".tmp", "w") as f:
        f.write(new)
    os.rename(out + ".tmp", out)


def gc():
    """keep the object cache small: the newest 120 objects and 6 binaries"""
    for pat, keep in (("obj/*.o", 120), ("stlsim-*", 6)):
        fs = sorted(glob.glob(os.path.join(BUILD, pat)), key=os.path.getmtime, reverse=True)
        for f in fs[keep:]:
            try:
                os.unlink(f)
            except OSError:
                pass


def build():
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_locale()
        build_config_header()
        simh = sorted(glob.glob(os.path.join(SIM, "*.h")))
        kh, ks = digest(headers()), digest(simh)
        jobs = [(s, INST, kh, "lib") for s in lib_sources()]
        jobs += [(os.path.join(SIM, s), INST, kh + ks, "sim") for s in SCEN if os.path.exists(os.path.join(SIM, s))]
        jobs += [(os.path.join(SIM, s), PLAIN, ks, "rt") for s in RUNTIME]
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(compile_one, jobs))
        key = hashlib.sha256("\n".join(objs + WRAP).encode()).hexdigest()[:20]
        exe = os.path.join(BUILD, "stlsim-" + key)
        if not os.path.exists(exe):
            tmp = exe + ".tmp"
            cmd = ["g++", "-no-pie", "-rdynamic", "-o", tmp] + objs
            cmd += ["-Wl,--wrap=" + w for w in WRAP] + ["-lfmt", "-lpthread", "-ldl"]
            run(cmd)
            os.rename(tmp, exe)
        else:
            os.utime(exe)
        gc()
        return exe


if __name__ == "__main__":
    try:
        print(build())
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
