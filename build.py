#!/usr/bin/env python3
"""Builds the simulator together with openelp's sources from /repo's working tree.

Every object is cached under /verif/build by a hash of what it is made from, so an unchanged tree costs nothing and a
changed source file is always recompiled."""
import hashlib, os, re, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("OPENELP_REPO", "/repo")
BUILD = os.path.join(HERE, "build")

SUT_FLAGS = ("-O1 -g -DNDEBUG -std=gnu90 -DOPENELP_MAJOR_VERSION=0 -DOPENELP_MINOR_VERSION=9 -DOPENELP_PATCH_VERSION=4 "
             "-DOPENELP_VERSION=0.9.4-dev -DOPENELP_EXTRA_VERSION=dev -DOPENELP_CONFIG_HINT=../etc/ELProxy.conf "
             "-DPCRE2_CODE_UNIT_WIDTH=8 -DHAVE_SYSLOG=1 -fno-builtin -fno-pie -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 "
             "-fno-stack-protector -fno-omit-frame-pointer -fno-optimize-sibling-calls -ftrivial-auto-var-init=pattern "
             "-fsanitize=kernel-address -fsanitize-coverage=trace-pc --param asan-stack=1 --param asan-globals=1 "
             "--param asan-instrumentation-with-call-threshold=0 -fasan-shadow-offset=0x7fff8000 -w").split()
SIM_FLAGS = "-std=c++17 -O1 -g -fno-pie -Wall -Wno-unused-function -fno-omit-frame-pointer -U_FORTIFY_SOURCE".split()
SKIP = {"service.c", "conn_wsa_errno.c"}
PASS = re.compile(r"^(__errno_location|__asan_.*|__sanitizer_cov_trace_pc|__ctype_\w+|_GLOBAL_OFFSET_TABLE_|qsort|bsearch|tolower|toupper|isspace|isdigit|"
                  r"isalpha|isalnum|isprint|isupper|islower|isxdigit|abs|labs|htons|htonl|ntohs|ntohl|div|ldiv|__stack_chk_fail|"
                  r"strerror|__sig\w*|sigemptyset|sigaddset|sigfillset|sigdelset|sigismember|tzset|inet_aton|main)$")


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def atomic(cmd_of, out):
    tmp = out + ".%d.tmp" % os.getpid()
    sh(cmd_of(tmp))
    os.rename(tmp, out)


def build(verbose=False):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    pool = ThreadPoolExecutor(8)
    repo_hdrs = sorted(glob.glob(REPO + "/include/**/*.h", recursive=True) + glob.glob(REPO + "/src/*.h"))
    hdr_h = digest(*[p + "\0" + digest(rd(p)) for p in repo_hdrs])
    sim_hdr_h = digest(*[rd(p) for p in sorted(glob.glob(HERE + "/sim/*.h"))])
    # simulator and worlds
    sims = sorted(glob.glob(HERE + "/sim/*.cc"))

    def sim_obj(src):
        uses_repo = os.path.basename(src).startswith("w_")
        key = digest(src, rd(src), sim_hdr_h, hdr_h if uses_repo else "", *SIM_FLAGS)
        out = os.path.join(BUILD, "obj", os.path.basename(src) + "." + key + ".o")
        if not os.path.exists(out):
            inc = ["-I" + REPO + "/include"] if uses_repo else []
            if uses_repo:
                inc += ["-DPCRE2_CODE_UNIT_WIDTH=8"]
            atomic(lambda t: ["g++"] + SIM_FLAGS + inc + ["-I" + HERE + "/sim", "-c", src, "-o", t], out)
        return out
    # openelp
    srcs = [s for s in sorted(glob.glob(REPO + "/src/*.c"))
            if not s.endswith("_win.c") and os.path.basename(s) not in SKIP and "eventlog" not in s]

    def sut_obj(src):
        key = digest(src, rd(src), hdr_h, *SUT_FLAGS)
        out = os.path.join(BUILD, "obj", os.path.basename(src) + "." + key + ".o")
        if not os.path.exists(out):
            atomic(lambda t: ["gcc"] + SUT_FLAGS + ["-I" + REPO + "/include", "-I" + REPO + "/src", "-c", src, "-o", t], out)
        return out
    f1 = [pool.submit(sut_obj, s) for s in srcs]
    f2 = [pool.submit(sim_obj, s) for s in sims]
    suts = [f.result() for f in f1]
    simo = [f.result() for f in f2]
    key = digest(*(suts + simo), rd(os.path.abspath(__file__)))
    exe = os.path.join(BUILD, "simrun." + key)
    notes = []
    if not os.path.exists(exe):
        defs = set()
        for o in simo:
            for l in sh(["nm", "--defined-only", o]).splitlines():
                p = l.split()
                if len(p) == 3 and p[1] in "TDBRWV" and p[2].startswith("sim_"):
                    defs.add(p[2])
        und, sdef = set(), set()
        for o in suts:
            for l in sh(["nm", o]).splitlines():
                p = l.split()
                if p[-2] == "U":
                    und.add(p[-1])
                elif p[-2] in "TDBRC":
                    sdef.add(p[-1])
        pairs = []
        for u in sorted(und - sdef):
            base = u
            if u.startswith("__isoc99_") or u.startswith("__isoc23_"):
                base = u[9:]
            if "sim_" + base not in defs:   # the names behind glibc's inline wrappers
                for pre in ("__", "_IO_"):
                    if u.startswith(pre) and "sim_" + u[len(pre):] in defs:
                        base = u[len(pre):]
            if "sim_" + base in defs:
                pairs.append("%s sim_%s" % (u, base))
            elif not PASS.match(u):
                notes.append(u)
        pairs.append("main sut_main")
        d = os.path.join(BUILD, "link." + key)
        os.makedirs(d, exist_ok=True)
        mp = os.path.join(d, "map")
        with open(mp, "w") as f:
            f.write("\n".join(pairs) + "\n")
        outs = []
        for o in suts:
            t = os.path.join(d, os.path.basename(o))
            outs.append((o, t))
        list(pool.map(lambda x: sh(["objcopy", "--redefine-syms=" + mp] +
                                 (["--redefine-sym", "proxy_init=sim_cap_proxy_init"] if "/proxyd.c." in x[0] else []) + [x[0], x[1]]), outs))
        tmp = exe + ".tmp"
        sh(["g++", "-no-pie", "-g", "-o", tmp] + [t for _, t in outs] + simo + ["-lpcre2-8", "-lpthread"])
        with open(exe + ".notes", "w") as f:
            f.write("\n".join(notes))
        os.rename(tmp, exe)
        sh(["rm", "-rf", d])
        # keep the cache small
        olds = sorted(glob.glob(BUILD + "/simrun.*"), key=os.path.getmtime)
        for p in olds[:-24]:
            os.unlink(p)
    else:
        os.utime(exe)
    try:
        notes = [x for x in open(exe + ".notes").read().split("\n") if x]
    except OSError:
        pass
    return exe, notes


if __name__ == "__main__":
    import time
    t = time.time()
    try:
        e, n = build()
    except BuildError as x:
        print(x)
        sys.exit(2)
    print(e, "%.1fs" % (time.time() - t), "passed through:", n)
