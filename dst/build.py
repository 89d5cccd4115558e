#!/usr/bin/env python3
"""Build one simulation world from the *current* working tree of /repo.

The C++ sources are mirrored (content-compared) into /verif/.build/src, the
files CMake would generate are generated there from the tree's own templates,
and ninja compiles them together with the harness.  Nothing is written in
/repo and nothing of /repo/build is used, so a stale build cannot hide a change.
"""
import os, re, subprocess, sys, hashlib

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST = os.path.join(VERIF, "dst")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

# world name -> extra sources / link flags.
WORLDS = {}
for f in sorted(os.listdir(os.path.join(DST, "worlds"))) if os.path.isdir(os.path.join(DST, "worlds")) else []:
    if f.endswith(".cc"):
        WORLDS[f[:-3]] = f

SKIP = {"eventhooks.cc", "pyinfile.cc", "pymodule.cc"}
NOCOMPILE = SKIP | {"OsiCbcSolverInterface_2_10.cpp"}  # textually included
GENERATED = {"version.cc", "env.cc", "hdf5_back.cc", "hdf5_back.h",
             "platform.h", "version.h", "cyc_limits.h"}
# the long poles of the build are compiled without optimisation
O0 = {"pyne.cc", "hdf5_back.cc"}


def write_if_diff(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def subst(text, table):
    for k, v in table.items():
        text = text.replace("@%s@" % k, v)
    return text


def cmake_version():
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"project\s*\(\s*cyclus[^)]*VERSION\s+(\d+)\.(\d+)\.(\d+)", txt, re.I)
    return m.groups() if m else ("1", "6", "0")


def gen_tree():
    """The type table CMake derives from the sources, in a private tree."""
    g = os.path.join(OUT, "gen")
    for d, n in (("src", "hdf5_back_gen.py"), ("src", "query_backend.h"), ("share", "dbtypes_gen.py"),
                 ("share", "dbtypes.json.in")):
        with open(os.path.join(REPO, d, n), "rb") as f:
            write_if_diff(os.path.join(g, d, n), f.read())
    ma, mi, pa = cmake_version()
    ent = subprocess.run([sys.executable, "-B", os.path.join(g, "share", "dbtypes_gen.py"), "%s.%s" % (ma, mi)],
                         stdout=subprocess.PIPE, check=True).stdout.decode().strip()
    txt = open(os.path.join(g, "share", "dbtypes.json.in")).read()
    write_if_diff(os.path.join(g, "share", "dbtypes.json"), txt.replace("@DBTYPES_JSON_ENTRIES@", ent))
    return g


def gen_hdf5(which):
    p = subprocess.run([sys.executable, "-B", os.path.join(OUT, "gen", "src", "hdf5_back_gen.py"), which],
                       stdout=subprocess.PIPE, check=True)
    return p.stdout.decode()


def mirror():
    srcdir = os.path.join(REPO, "src")
    dstdir = os.path.join(OUT, "src")
    keep = set()
    for root, dirs, files in os.walk(srcdir):
        rel = os.path.relpath(root, srcdir)
        if rel == ".":
            rel = ""
        for f in files:
            if not f.endswith((".h", ".hpp", ".cc", ".cpp", ".c")):
                continue
            r = os.path.join(rel, f)
            if f in SKIP or (rel == "" and f in GENERATED):
                continue
            # generated by cython in a dev tree; not part of the sources
            if re.match(r"(eventhooks|pyinfile|pymodule)(_api)?\.(h|cc\.h|cc_api\.h)$", f) or f.endswith("cc_api.h"):
                continue
            with open(os.path.join(root, f), "rb") as fh:
                write_if_diff(os.path.join(dstdir, r), fh.read())
            keep.add(r)
    rd = lambda n: open(os.path.join(srcdir, n)).read()
    ma, mi, pa = cmake_version()
    gen_tree()
    gen = {
        "platform.h": subst(rd("platform.h.in"), {
            "suffix": ".so", "dynamicloadlib": "unix_helper_functions.h",
            "cyclus_has_coin": "1", "cyclus_is_parallel": "0"}),
        "cyc_limits.h": subst(rd("cyc_limits.h.in"), {
            "CY_LARGE_INT": "2147483647", "CY_LARGE_DOUBLE": "1e299",
            "CY_NEAR_ZERO": "1e-08"}),
        "version.h": subst(rd("version.h.in"), {
            "CMAKE_PROJECT_VERSION_MAJOR": ma, "CMAKE_PROJECT_VERSION_MINOR": mi,
            "CMAKE_PROJECT_VERSION_PATCH": pa}),
        "version.cc": subst(rd("version.cc.in"), {"DATA_MODEL_VERSION": "%s.%s" % (ma, mi)}),
        "env.cc": subst(rd("env.cc.in"), {
            "cyclus_install_dir": "/opt/cyclus/install",
            "cyclus_build_dir": REPO + "/build", "default_allow_milps": "false"}),
        "hdf5_back.h": subst(rd("hdf5_back.h.in"), {
            "HDF5_BACK_CC_VAL_TO_BUF_H": gen_hdf5("VAL_TO_BUF_H")}),
        "hdf5_back.cc": subst(rd("hdf5_back.cc.in"), {
            "HDF5_BACK_CC_" + k: gen_hdf5(k) for k in
            ("QUERY", "CREATE", "VL_DATASET", "FILL_BUF", "WRITE", "VAL_TO_BUF", "BUF_TO_VAL")}),
    }
    for n, t in gen.items():
        write_if_diff(os.path.join(dstdir, n), t)
        keep.add(n)
    # drop files that vanished from the tree
    for root, dirs, files in os.walk(dstdir):
        rel = os.path.relpath(root, dstdir)
        rel = "" if rel == "." else rel
        for f in files:
            if os.path.join(rel, f) not in keep:
                os.unlink(os.path.join(root, f))
    return sorted(keep)


INC = ("-I{o}/src -I{d} -I/usr/include/hdf5/serial -I/usr/include/coin "
       "-isystem /usr/include/libxml2 -isystem /usr/include/libxml++-2.6 "
       "-isystem /usr/lib/x86_64-linux-gnu/libxml++-2.6/include -isystem /usr/include/glibmm-2.4 "
       "-isystem /usr/lib/x86_64-linux-gnu/glibmm-2.4/include -isystem /usr/include/glib-2.0 "
       "-isystem /usr/lib/x86_64-linux-gnu/glib-2.0/include -isystem /usr/include/sigc++-2.0 "
       "-isystem /usr/lib/x86_64-linux-gnu/sigc++-2.0/include -isystem /usr/include/python3.12")
LIBS = ("-lboost_program_options -lboost_filesystem -lboost_serialization -lboost_system "
        "-lsqlite3 /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so "
        "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5_hl.so "
        "-lxml++-2.6 -lxml2 -lglibmm-2.4 -lgobject-2.0 -lglib-2.0 -lsigc-2.0 "
        "-lOsiClp -lCbcSolver -lCbc -lCgl -lOsi -lClp -lCoinUtils -llapack -lblas -ldl -lpthread")


def q(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def emit(files, asan=False):
    san = " -fsanitize=address -fno-omit-frame-pointer" if asan else ""
    inc = INC.format(o=OUT, d=DST)
    base = ("-include /opt/cyclus/cmake/missing_weak.h -std=c++17 -w -pipe -DNDEBUG -DHDF_NO_NAMESPACE "
            "-DNO_STATIC_CAST -DOLD_HEADER_FILENAME " + inc + san)
    if not os.path.exists("/opt/cyclus/cmake/missing_weak.h"):
        raise SystemExit("missing /opt/cyclus/cmake/missing_weak.h")
    L = ["ninja_required_version = 1.3", "builddir = %s" % OUT,
         "rule cxx", "  command = g++ $opt %s -MMD -MF $out.d -c $in -o $out" % base,
         "  depfile = $out.d", "  deps = gcc", "  description = CXX $in",
         "rule link", "  command = g++ -o $out $in -Wl,--export-dynamic -Wl,--allow-multiple-definition %s%s" % (LIBS, san),
         "  description = LINK $out"]
    objs = []
    srcs = [f for f in files if f.endswith((".cc", ".cpp")) and os.path.basename(f) not in NOCOMPILE
            and os.path.dirname(f) in ("", "toolkit")]
    srcs.sort(key=lambda f: (os.path.basename(f) not in O0, f))
    for f in srcs:
        o = os.path.join(OUT, "obj", f.replace("/", "_") + ".o")
        L.append("build %s: cxx %s" % (q(o), q(os.path.join(OUT, "src", f))))
        L.append("  opt = %s" % ("-O0" if os.path.basename(f) in O0 else "-O1"))
        objs.append(o)
    core = os.path.join(OUT, "obj", "dst_core.o")
    L.append("build %s: cxx %s" % (q(core), q(os.path.join(DST, "core.cc"))))
    L.append("  opt = -O1")
    for w, f in WORLDS.items():
        o = os.path.join(OUT, "obj", "world_%s.o" % w)
        L.append("build %s: cxx %s" % (q(o), q(os.path.join(DST, "worlds", f))))
        L.append("  opt = -O1")
        exe = os.path.join(OUT, "bin", w)
        L.append("build %s: link %s %s %s" % (q(exe), q(o), q(core), " ".join(map(q, objs))))
    write_if_diff(os.path.join(OUT, "build.ninja"), "\n".join(L) + "\n")


def build(worlds, quiet=True):
    os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
    files = mirror()
    emit(files, asan=bool(os.environ.get("VERIF_ASAN")))
    targets = [os.path.join(OUT, "bin", w) for w in worlds]
    p = subprocess.run(["ninja", "-f", os.path.join(OUT, "build.ninja")] + targets,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stderr.write(p.stdout.decode(errors="replace")[-8000:])
        raise SystemExit(4)
    return targets


if __name__ == "__main__":
    if "--mirror-only" in sys.argv:
        mirror()
        sys.exit(0)
    ws = sys.argv[1:] or list(WORLDS)
    build(ws)
