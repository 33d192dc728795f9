#!/usr/bin/env python3
"""Builds the simulator binary of one scenario group from /repo's current working tree. Used by tools/check.py."""
import hashlib, os, subprocess, sys, concurrent.futures, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LEARNLOG_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD_DIR", os.path.join(VERIF, ".build"))

RT_FLAGS = ["-std=gnu++17", "-O2", "-g", "-fno-pie", "-fno-strict-aliasing", "-w", "-include", os.path.join(VERIF, "sim", "ownstring.h")]
TSAN = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]
APP_FLAGS = ["-std=gnu++11", "-O1", "-g1", "-DNDEBUG", "-DLEARNLOG_USE_BUNDLED_FMT", "-DLEARNLOG_USE_TLS", "-include", os.path.join(VERIF, "sim", "ownstring.h"),
             "-U_FORTIFY_SOURCE", "-fno-pie", "-w", "-fno-builtin-printf", "-fno-builtin-fprintf", "-fno-builtin-puts", "-fno-builtin-putchar", "-fno-builtin-fputs", "-fno-builtin-fputc"]
LINK = ["-no-pie", "-rdynamic", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=strlen,--wrap=memcmp,--wrap=__cxa_atexit"]
RT_REDEF = ["memcpy", "memmove", "memset", "strlen", "memcmp"]


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def tree_hash(dirs, exts):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            h.update(d.encode()); h.update(open(d, "rb").read()); continue
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def repo_sources():
    src = []
    for d in ("src", "base", "sinks", "sinks/formatters"):
        p = os.path.join(REPO, d)
        if os.path.isdir(p):
            src += sorted(os.path.join(p, f) for f in os.listdir(p) if f.endswith(".cpp"))
    return src


def build(group, variant=""):
    """group: the name of a scenarios/<group>.cpp; returns the path of the binary."""
    os.makedirs(OUT, exist_ok=True)
    inc = os.path.join(OUT, "inc")
    os.makedirs(inc, exist_ok=True)
    if not os.path.exists(os.path.join(REPO, "include", "version.h")):
        with open(os.path.join(inc, "version.h"), "w") as f:
            f.write("#pragma once\n#define LEARNLOG_VERSION_MAJOR 1\n#define LEARNLOG_VERSION_MINOR 0\n#define LEARNLOG_VERSION_PATCH 3\n")
    incs = ["-I" + REPO, "-I" + os.path.join(REPO, "include"), "-I" + inc, "-I" + os.path.join(VERIF, "sim"), "-I" + os.path.join(VERIF, "scenarios")]
    vflags = {"": [], "notls": ["-ULEARNLOG_USE_TLS"], "debug": ["-UNDEBUG"]}[variant]
    repo_h = tree_hash([os.path.join(REPO, d) for d in ("src", "base", "sinks", "include")], (".cpp", ".h", ".cc"))
    sim_h = tree_hash([os.path.join(VERIF, "sim")], (".cpp", ".h"))
    me_h = hashlib.sha256(open(os.path.abspath(__file__), "rb").read()).hexdigest()
    sc_hdr = tree_hash([os.path.join(VERIF, "scenarios")], (".h",))
    jobs = []       # (source, object, command list)

    def obj(name, key):
        return os.path.join(OUT, name + "-" + hashlib.sha256(key.encode()).hexdigest()[:16] + ".o")

    objs_app, objs_rt = [], []
    for s in repo_sources():
        o = obj("repo-" + os.path.basename(s), repo_h + me_h + s + variant)
        jobs.append((o, [["g++"] + APP_FLAGS + vflags + TSAN + incs + ["-c", s, "-o", "%OUT%"]]))
        objs_app.append(o)
    fmt = os.path.join(REPO, "base/fmt/format.cc")
    if os.path.exists(fmt):
        o = obj("repo-format", tree_hash([os.path.join(REPO, "base/fmt")], (".h", ".cc")) + me_h)
        jobs.append((o, [["g++", "-std=gnu++11", "-O1", "-g1", "-DNDEBUG", "-DLEARNLOG_USE_BUNDLED_FMT", "-fno-pie", "-w", "-I" + REPO, "-c", fmt, "-o", "%OUT%"]]))
        objs_app.append(o)
    for g in [group] if isinstance(group, str) else group:
        s = os.path.join(VERIF, "scenarios", g + ".cpp")
        o = obj("sc-" + g, repo_h + me_h + sc_hdr + sim_h + open(s).read() + variant)
        jobs.append((o, [["g++"] + APP_FLAGS + vflags + TSAN + incs + ["-c", s, "-o", "%OUT%"]]))
        objs_app.append(o)
    for s in ("rt", "interpose", "vfs", "driver"):
        o = obj("sim-" + s, sim_h + me_h)
        extra = ["-fno-builtin"] if s == "interpose" else []
        cmds = [["g++"] + RT_FLAGS + extra + ["-I" + os.path.join(VERIF, "sim"), "-c", os.path.join(VERIF, "sim", s + ".cpp"), "-o", "%OUT%"]]
        redef = []
        for m in RT_REDEF:
            redef += ["--redefine-sym", m + "=__real_" + m]
        cmds.append(["objcopy"] + redef + ["%OUT%"])
        jobs.append((o, cmds))
        objs_rt.append(o)

    def run(job):
        o, cmds = job
        if os.path.exists(o):
            return
        tmp = o + ".tmp%d.o" % os.getpid()
        for c in cmds:
            sh([tmp if x == "%OUT%" else x for x in c])
        os.rename(tmp, o)

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, sorted(jobs, key=lambda j: -("sc-" in j[0]))))
    # the runtime keeps template instantiations of its own: those of the simulated program are instrumented
    rt = obj("rt-all", "".join(objs_rt) + me_h)
    if not os.path.exists(rt):
        tmp = rt + ".tmp%d.o" % os.getpid()
        sh(["ld", "-r", "--force-group-allocation"] + objs_rt + ["-o", tmp])
        weak = [l.split()[-1] for l in sh(["nm", "--defined-only", tmp]).split("\n") if len(l.split()) == 3 and l.split()[1] in "WV"]
        with open(tmp + ".sym", "w") as f:
            f.write("\n".join(weak) + "\n")
        sh(["objcopy", "--localize-symbols=" + tmp + ".sym", tmp])
        os.remove(tmp + ".sym")
        os.rename(tmp, rt)
    key = hashlib.sha256("".join(objs_app + [rt]).encode()).hexdigest()[:16]
    name = group if isinstance(group, str) else "+".join(group)
    exe = os.path.join(OUT, "sim-%s%s-%s" % (name[:40], variant, key))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        sh(["g++"] + LINK + objs_app + [rt] + ["-o", tmp, "-ldl", "-lpthread"])
        os.rename(tmp, exe)
    return exe


if __name__ == "__main__":
    print(build(sys.argv[1:] if len(sys.argv) > 2 else sys.argv[1], os.environ.get("SIM_VARIANT", "")))
