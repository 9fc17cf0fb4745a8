"""Builds GA libraries and harness drivers from /repo's current working tree.

No configure run: the configuration headers the pinned sandbox produces are committed in
buildcfg/ and the *.h.in / *.fh.in templates of /repo are expanded with committed values.
Objects are cached under $VERIF_BUILD (default /verif/.build), keyed by a hash of the
preprocessed source and the flags, so a stale object is never used.
"""
import concurrent.futures as cf
import hashlib
import os
import re
import subprocess
import sys
import threading

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
J = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))


class BuildError(Exception):
    pass


GA_SRC = """
compat/random.c ma/error.c ma/f2c.c ma/ma.c ma/string-util.c ma/table.c ma/maf.F LinAlg/lapack+blas/xgemm.c
global/src/base.c global/src/capi.c global/src/collect.c global/src/datatypes.c global/src/decomp.c
global/src/DP.c global/src/elem_alg.c global/src/fapi.c global/src/ga_diag_seqc.c global/src/ga_malloc.c
global/src/ga_solve_seq.c global/src/ga_symmetr.c global/src/ga_trace.c global/src/ghosts.c
global/src/global.nalg.c global/src/global.npatch.c global/src/global.periodic.c global/src/global.util.c
global/src/hsort.scat.c global/src/iterator.c global/src/sparse.array.c global/src/sketch.c
global/src/mtwister.c global/src/matmul.c global/src/matrix.c global/src/nbutil.c global/src/onesided.c
global/src/peigstubs.c global/src/sclstubs.c global/src/select.c global/src/sparse.c
global/src/thread-safe.c global/src/complex.F global/src/ga_diag_seq.F
pario/dra/buffers.c pario/dra/capi.c pario/dra/disk.arrays.c pario/dra/disk.param.c pario/dra/env.c
pario/dra/fortran.c pario/dra/patch.util.c pario/eaf/eaf.c pario/eaf/eaf_f2c.c pario/elio/elio.c
pario/elio/stat.c pario/sf/sf_capi.c pario/sf/sf_fortran.c pario/sf/shared.files.c
gaf2c/gaf2c.c gaf2c/drand.c gaf2c/farg.F tcgmsg/capi.c tcgmsg/fapi.c tcgmsg/tcgmsg-mpi/checkbyte.c
tcgmsg/tcgmsg-mpi/clustercheck.c tcgmsg/tcgmsg-mpi/collect.c tcgmsg/tcgmsg-mpi/drand48.c
tcgmsg/tcgmsg-mpi/evlog.c tcgmsg/tcgmsg-mpi/evon.c tcgmsg/tcgmsg-mpi/llog.c tcgmsg/tcgmsg-mpi/misc.c
tcgmsg/tcgmsg-mpi/niceftn.c tcgmsg/tcgmsg-mpi/nxtval-armci.c tcgmsg/tcgmsg-mpi/p2p.c
tcgmsg/tcgmsg-mpi/pbeginf.c tcgmsg/tcgmsg-mpi/pfilecopy.c tcgmsg/tcgmsg-mpi/sizeof.c
""".split()
GAPP_SRC = """ga++/src/GAServices.cc ga++/src/GlobalArray.cc ga++/src/PGroup.cc ga++/src/init_term.cc
ga++/src/services.cc""".split()
GP_SRC = "gparrays/src/gpbase.c gparrays/src/gpcapi.c gparrays/src/gponesided.c".split()
ARMCI_SRC = "src-armci/armci.c src-armci/groups.c src-armci/message.c src-armci/iterator.c src-armci/capi.c".split()
PORTS = {
    "ts": ("MPI_TS", "COMEX_NETWORK_MPI_TS", "src-mpi", ["comex.c", "groups.c"]),
    "pr": ("MPI_PR", "COMEX_NETWORK_MPI_PR", "src-mpi-pr", ["comex.c", "groups.c", "reg_cache.c"]),
    "mt": ("MPI_MT", "COMEX_NETWORK_MPI_MT", "src-mpi-mt", ["comex.c", "groups.c"]),
    "pt": ("MPI_PT", "COMEX_NETWORK_MPI_PT", "src-mpi-pt", ["comex.c", "groups.c", "reg_cache.c"]),
    "mpi3": ("MPI_MPI3", "COMEX_NETWORK_MPI3", "src-mpi3", ["comex.c", "groups.c", "reg_win.c"]),
}
SAN = {
    "plain": ["-O1", "-g1"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize=alignment,vptr", "-fsanitize-recover=undefined"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
}
GAFLAGS = ["-fno-aggressive-loop-optimizations", "-fno-tree-slp-vectorize"]


def _showme(cc):
    cmd = {"c": "mpicc", "cxx": "mpicxx", "f": "mpif77"}[cc]
    o = subprocess.run([cmd, "--showme"], capture_output=True, text=True)
    if o.returncode:
        raise BuildError("%s not usable: %s" % (cmd, o.stderr))
    return o.stdout.split()


_sm = {}


def showme(cc):
    if cc not in _sm:
        _sm[cc] = _showme(cc)
    return _sm[cc]


def run(cmd, cwd=None):
    p = subprocess.run(cmd, capture_output=True, cwd=cwd)
    if p.returncode:
        raise BuildError("command failed (%d): %s\n%s" % (
            p.returncode, " ".join(cmd), p.stderr.decode(errors="replace")[-4000:]))
    return p.stdout


def read(p):
    with open(p, encoding="utf-8", errors="replace") as f:
        return f.read()


def write_if(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and read(path) == text:
        return
    tmp = path + ".%d.%d" % (os.getpid(), threading.get_ident())
    with open(tmp, "w", encoding="utf-8", errors="replace") as f:
        f.write(text)
    os.rename(tmp, path)


SUBST = {
    "F2C_INTEGER_C_TYPE": "long", "F2C_REAL_C_TYPE": "float", "F2C_DOUBLE_PRECISION_C_TYPE": "double",
    "C_POINTER_AS_INTEGER": "long", "MA_LONG_DOUBLE": "long double", "MA_ACCESS_INDEX_TYPE_C": "long",
    "MA_ACCESS_INDEX_TYPE": "integer*8", "F2C_GETARG": "f2c_getarg_", "F2C_IARGC": "f2c_iargc_",
    "GA_ACCESS_INDEX_TYPE": "integer*8",
}


def expand(src, dst):
    t = read(os.path.join(REPO, src))
    for k, v in SUBST.items():
        t = t.replace("@%s@" % k, v)
    write_if(dst, t)


_gen = {}


def gen_headers(port):
    """Generated headers for one port; returns (ga include dir, comex include dir)."""
    if port not in _gen:
        _gen[port] = _gen_headers(port)
    return _gen[port]


def _gen_headers(port):
    g = os.path.join(BUILD, "gen", port)
    macro, net = PORTS[port][0], PORTS[port][1]
    t = read(os.path.join(VERIF, "buildcfg", "ga-config.h"))
    t = t.replace("#define MPI_TS 1", "/* #undef MPI_TS */")
    t = re.sub(r"/\* #undef %s \*/" % macro, "#define %s 1" % macro, t)
    write_if(g + "/ga/config.h", t)
    write_if(g + "/ga/config.fh", read(os.path.join(VERIF, "buildcfg", "ga-config.fh"))
             .replace("#define MPI_TS 1", "#define %s 1" % macro))
    t = read(os.path.join(VERIF, "buildcfg", "comex-config.h"))
    t = t.replace("#define COMEX_NETWORK_MPI_TS 1", "#define COMEX_NETWORK_MPI_TS 0")
    t = t.replace("#define %s 0" % net, "#define %s 1" % net)
    write_if(g + "/comex/config.h", t)
    expand("gaf2c/typesf2c.h.in", g + "/ga/typesf2c.h")
    expand("gaf2c/farg.h.in", g + "/ga/farg.h")
    expand("ma/matypes.h.in", g + "/ga/matypes.h")
    expand("ma/mafdecls.fh.in", g + "/ga/mafdecls.fh")
    expand("global/src/global.fh.in", g + "/ga/global.fh")
    papi = read(os.path.join(REPO, "global/src/ga-papi.h"))
    w = "\n".join(l for l in papi.replace("PAPI", "WAPI").replace("pnga_", "wnga_").split("\n") if "typedef" not in l)
    write_if(g + "/ga/ga-wapi.h", w)
    out = []
    for l in papi.split("\n"):
        l = l.replace("PAPI", "WAPIDEFS")
        l = re.sub(r"^.*p(nga_.*)\(.*$", r"#define w\1 p\1", l)
        if l.startswith(" ") or l.startswith("/*") or "typedef" in l:
            continue
        out.append(l)
    write_if(g + "/ga/ga-wapidefs.h", "\n".join(out))
    gp = os.path.join(REPO, "gparrays/src/gp-papi.h")
    if os.path.exists(gp):
        papi = read(gp)
        w = "\n".join(l for l in papi.replace("PAPI", "WAPI").replace("pgp_", "wgp_").split("\n") if "typedef" not in l)
        write_if(g + "/ga/gp-wapi.h", w)
        out = []
        for l in papi.split("\n"):
            l = l.replace("PAPI", "WAPIDEFS")
            l = re.sub(r"^.*p(gp_.*)\(.*$", r"#define w\1 p\1", l)
            if l.startswith(" ") or l.startswith("/*") or "typedef" in l:
                continue
            out.append(l)
        write_if(g + "/ga/gp-wapidefs.h", "\n".join(out))
    return g + "/ga", g + "/comex"


def ga_includes(port):
    ga, _ = gen_headers(port)
    inc = ["-I" + ga]
    for d in ("ma", "LinAlg/lapack+blas", "global/src", "pario/dra", "pario/eaf", "pario/elio", "pario/sf",
              "ga++/src", "global/testing", "gaf2c", "tcgmsg", "tcgmsg/tcgmsg-mpi", "comex/src-armci", "gparrays/src"):
        inc.append("-I" + os.path.join(REPO, d))
    return inc


_ver = None


def toolver():
    global _ver
    if _ver is None:
        _ver = run(["gcc", "--version"]).decode()[:80] + run(["gfortran", "--version"]).decode()[:80]
    return _ver


def compile_one(src, flags, tag):
    """Compile src (absolute path) with cache; returns the object path."""
    ext = os.path.splitext(src)[1]
    if ext in (".f", ".F"):
        cc, std = showme("f"), ["-fdefault-integer-8", "-fallow-argument-mismatch"]
        pre = None
    elif ext in (".cc", ".cpp"):
        cc, std = showme("cxx"), ["-std=gnu++17", "-w"]
    else:
        cc, std = showme("c"), ["-std=gnu17", "-w"]
    base, extra = cc[0], [a for a in cc[1:] if not a.startswith("-L") and not a.startswith("-l") and not a.startswith("-Wl")]
    args = [base] + extra + std + flags
    if ext == ".f":
        text = open(src, "rb").read()
    elif ext == ".F":
        # cheap: Fortran sources with cpp; hash the preprocessed text
        text = run(args + ["-E", src])
    else:
        text = run(args + ["-E", src])
    key = hashlib.sha256()
    key.update("\0".join([toolver()] + args[1:] + [src]).encode())
    key.update(text)
    h = key.hexdigest()[:32]
    odir = os.path.join(BUILD, "obj", h[:2])
    obj = os.path.join(odir, "%s-%s.o" % (h[2:], os.path.basename(src)))
    if not os.path.exists(obj):
        os.makedirs(odir, exist_ok=True)
        tmp = obj + ".%d.%d.tmp.o" % (os.getpid(), threading.get_ident())
        run(args + ["-c", src, "-o", tmp])
        os.rename(tmp, obj)
    return obj


def sources(port, parts):
    """list of (source, kind) for the parts wanted: ga, gapp, gp, armci"""
    out = []
    d = PORTS[port][2]
    for f in PORTS[port][3]:
        out.append(("comex/%s/%s" % (d, f), "comex"))
    for f in ARMCI_SRC:
        out.append(("comex/" + f, "comex"))
    if "ga" in parts:
        la = sorted(f for f in os.listdir(os.path.join(REPO, "LinAlg/lapack+blas")) if f.endswith(".f"))
        out += [("LinAlg/lapack+blas/" + f, "f") for f in la]
        out += [(f, "ga") for f in GA_SRC]
    if "gapp" in parts:
        out += [(f, "ga") for f in GAPP_SRC]
    if "gp" in parts:
        out += [(f, "ga") for f in GP_SRC]
    return out


def flags_for(kind, port, san):
    sf = list(SAN[san])
    if kind == "f":
        # LAPACK/BLAS reference code: instrumented too, except under tsan
        return [f for f in sf if "sanitize" not in f] + GAFLAGS
    if kind == "comex":
        _, cx = gen_headers(port)
        return ["-DHAVE_CONFIG_H", "-I" + cx, "-I" + os.path.join(REPO, "comex"),
                "-I" + os.path.join(REPO, "comex/src-common"),
                "-I" + os.path.join(REPO, "comex", PORTS[port][2])] + sf
    return ["-DHAVE_CONFIG_H"] + ga_includes(port) + GAFLAGS + sf


HOOKS = ["-DGA_VERIF_HOOKS=1"]


def build_many(jobs):
    """jobs: list of dict(port, san, parts, drivers=[(name, [srcs], extra_flags)]).
    Returns {(port, san, name): exe}."""
    todo = []
    for b in jobs:
        for s, kind in sources(b["port"], b["parts"]):
            fl = flags_for(kind, b["port"], b["san"])
            if kind != "f":
                fl = fl + HOOKS
            todo.append(((b["port"], b["san"], s), os.path.join(REPO, s), fl))
        for name, srcs, extra in b["drivers"]:
            for s in srcs:
                a = os.path.join(VERIF, "harness", s)
                fl = ["-DHAVE_CONFIG_H"] + ga_includes(b["port"]) + ["-I" + os.path.join(VERIF, "harness"),
                      "-I" + os.path.join(REPO, "comex/src-common"),
                      '-DPORT_%s=1' % b["port"].upper(), '-DPORT_NAME="%s"' % b["port"]] + HOOKS + list(extra)
                fl += [x if x != "-O1" else ("-O0" if b["san"] != "plain" else "-O1") for x in SAN[b["san"]]]
                todo.append(((b["port"], b["san"], "drv:" + name + ":" + s), a, fl))
    # biggest first
    todo.sort(key=lambda t: -os.path.getsize(t[1]) if os.path.exists(t[1]) else 0)
    objs = {}
    with cf.ThreadPoolExecutor(J) as ex:
        futs = {ex.submit(compile_one, src, fl, k): k for k, src, fl in todo}
        err = None
        for f in cf.as_completed(futs):
            try:
                objs[futs[f]] = f.result()
            except Exception as e:  # noqa
                err = err or e
        if err:
            raise err
    exes = {}
    links = []
    for b in jobs:
        lib = [objs[(b["port"], b["san"], s)] for s, _ in sources(b["port"], b["parts"])]
        h = hashlib.sha256(("\0".join(lib)).encode()).hexdigest()[:24]
        os.makedirs(os.path.join(BUILD, "lib"), exist_ok=True)
        ar = os.path.join(BUILD, "lib", "lib%s.a" % h)
        if not os.path.exists(ar):
            tmp = ar + ".%d" % os.getpid()
            run(["ar", "crT" if False else "cr", tmp] + lib)
            os.rename(tmp, ar)
        for name, srcs, extra in b["drivers"]:
            drv = [objs[(b["port"], b["san"], "drv:" + name + ":" + s)] for s in srcs]
            hh = hashlib.sha256("\0".join(drv + lib).encode()).hexdigest()[:24]
            os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
            exe = os.path.join(BUILD, "bin", "%s-%s-%s-%s" % (name, b["port"], b["san"], hh))
            exes[(b["port"], b["san"], name)] = exe
            links.append((exe, drv, ar, b["san"]))

    def link(l):
        exe, drv, ar, san = l
        if os.path.exists(exe):
            return
        tmp = exe + ".%d" % os.getpid()
        cc = showme("cxx")
        fl = [f for f in SAN[san] if "sanitize" in f]
        run([cc[0]] + drv + fl + ["-rdynamic", ar, ar] + cc[1:] + ["-lgfortran", "-lquadmath", "-lm", "-lpthread", "-lrt",
            "-o", tmp])
        os.rename(tmp, exe)

    with cf.ThreadPoolExecutor(J) as ex:
        list(ex.map(link, links))
    return exes


if __name__ == "__main__":
    import time
    t = time.time()
    port, san = sys.argv[1], sys.argv[2]
    print(build_many([dict(port=port, san=san, parts=sys.argv[3].split(","),
                           drivers=[(n, n.split("+"), []) for n in sys.argv[4:]])]))
    print("%.1fs" % (time.time() - t))
