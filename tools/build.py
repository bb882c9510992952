#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree.

Every object is cached under a key made from the compiler flags and the
*contents* of the source and of every header it included last time, so
timestamps never matter.  usage: build.py [variant]; prints the binary path.
"""
import fcntl, glob, hashlib, json, os, re, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
S = REPO + "/src"
OUT = os.environ.get("VERIF_BUILD", VERIF + "/build")

SUBST = {
    "CONDUIT_INSTALL_PREFIX": "/nonexistent/install", "CONDUIT_GIT_SHA1": "unknown",
    "CONDUIT_GIT_SHA1_ABBREV": "unknown", "CONDUIT_GIT_TAG": "unknown",
    "CONDUIT_RELAY_SOURCE_DIR": REPO + "/src/libs/relay", "CMAKE_SYSTEM": "Linux-sim",
    "CMAKE_CXX_COMPILER": "g++", "CMAKE_C_COMPILER": "gcc", "CONDUIT_FORTRAN_COMPILER": "gfortran",
}
DEFINED = {"CONDUIT_USE_FMT", "CONDUIT_USE_CXX11", "CONDUIT_USE_CXX14", "CONDUIT_USE_PARMETIS",
           "CONDUIT_BLUEPRINT_MPI_PARMETIS_ENABLED", "CONDUIT_RELAY_IO_HDF5_ENABLED",
           "CONDUIT_RELAY_IO_SILO_ENABLED", "CONDUIT_RELAY_MPI_ENABLED",
           "CONDUIT_RELAY_WEBSERVER_ENABLED"}


def subst_table():
    t = dict(SUBST)
    for d in DEFINED:
        t[d] = "TRUE"
    m = re.search(r'^project\(conduit VERSION "([0-9.]+)"', open(S + "/CMakeLists.txt").read(), re.M)
    v = m.group(1) if m else "0.0.0"
    t["PROJECT_VERSION"] = v
    p = (v.split(".") + ["0", "0", "0"])[:3]
    t["PROJECT_VERSION_MAJOR"], t["PROJECT_VERSION_MINOR"], t["PROJECT_VERSION_PATCH"] = p
    return t


def configure(src, table):
    out = []
    for line in open(src).read().split("\n"):
        m = re.match(r"^\s*#\s*cmakedefine\s+(\w+)(.*)$", line)
        if m:
            if table.get(m.group(1)):
                line = "#define %s%s" % (m.group(1), m.group(2))
            else:
                line = "/* #undef %s */" % m.group(1)
        line = re.sub(r"\$\{(\w+)\}|@(\w+)@", lambda k: table.get(k.group(1) or k.group(2), ""), line)
        out.append(line)
    return "\n".join(out)


def bitwidth_table():
    # the values CMake's type checks find on this platform (x86_64 Linux)
    t = {}
    for n, v in dict(CHAR=1, SHORT=2, INT=4, LONG=8, LONG_LONG=8, FLOAT=4, DOUBLE=8,
                     LONG_DOUBLE=16, VOID_P=8).items():
        for k in ("SIZEOF_" + n, "CONDUIT_SIZEOF_" + n):
            t[k] = str(v)
    for k in ("LONG_LONG", "LONG_DOUBLE"):
        t["CONDUIT_HAS_" + k] = "1"
        t["HAS_" + k] = "1"
    for k in ("CHAR", "SHORT", "INT", "LONG", "FLOAT", "DOUBLE"):
        t["CONDUIT_USE_" + k] = "1"
    ids = ["EMPTY", "OBJECT", "LIST", "INT8", "INT16", "INT32", "INT64", "UINT8", "UINT16",
           "UINT32", "UINT64", "FLOAT32", "FLOAT64", "CHAR8_STR"]
    for i, n in enumerate(ids):
        t["CONDUIT_%s_ID" % n] = str(i)
    nat = {8: "char", 16: "short", 32: "int", 64: "long"}
    for w, n in nat.items():
        t["CONDUIT_INT%d_TYPE" % w] = "conduit_signed_" + n
        t["CONDUIT_INT%d_NATIVE_TYPE" % w] = "signed " + n
        t["CONDUIT_UINT%d_TYPE" % w] = "conduit_unsigned_" + n
        t["CONDUIT_UINT%d_NATIVE_TYPE" % w] = "unsigned " + n
    t["CONDUIT_FLOAT32_TYPE"] = "conduit_float"
    t["CONDUIT_FLOAT64_TYPE"] = "conduit_double"
    t["CONDUIT_FLOAT32_NATIVE_TYPE"] = "float"
    t["CONDUIT_FLOAT64_NATIVE_TYPE"] = "double"
    for n, w in (("CHAR", 8), ("SHORT", 16), ("INT", 32), ("LONG", 64), ("LONG_LONG", 64)):
        k = {8: 0, 16: 1, 32: 2, 64: 3}[w]
        t["CONDUIT_NATIVE_%s_TYPE" % n] = "conduit_int%d" % w
        t["CONDUIT_NATIVE_%s_ID" % n] = str(3 + k)
        t["CONDUIT_NATIVE_SIGNED_%s_TYPE" % n] = "conduit_int%d" % w
        t["CONDUIT_NATIVE_SIGNED_%s_ID" % n] = str(3 + k)
        t["CONDUIT_NATIVE_UNSIGNED_%s_TYPE" % n] = "conduit_uint%d" % w
        t["CONDUIT_NATIVE_UNSIGNED_%s_ID" % n] = str(7 + k)
    t["CONDUIT_NATIVE_FLOAT_TYPE"] = "conduit_float32"
    t["CONDUIT_NATIVE_FLOAT_ID"] = "11"
    t["CONDUIT_NATIVE_DOUBLE_TYPE"] = "conduit_float64"
    t["CONDUIT_NATIVE_DOUBLE_ID"] = "12"
    return t


HEADERS = ["conduit/conduit_config.h", "conduit/conduit_bitwidth_style_types.h", "conduit/conduit_exports.h",
           "relay/conduit_relay_config.h", "relay/conduit_relay_exports.h",
           "blueprint/conduit_blueprint_config.h", "blueprint/conduit_blueprint_exports.h"]


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def gen_headers():
    t = subst_table()
    t.update(bitwidth_table())
    for h in HEADERS:
        write_if_changed(OUT + "/gen/" + h, configure(S + "/libs/" + h + ".in", t))


TP = S + "/thirdparty_builtin"
OMPI = "/usr/lib/x86_64-linux-gnu/openmpi/include"


def includes():
    L = S + "/libs"
    return [L + "/conduit", L + "/conduit/c", OUT + "/gen/conduit", L + "/relay", L + "/relay/c",
            OUT + "/gen/relay", L + "/blueprint", L + "/blueprint/c", OUT + "/gen/blueprint",
            TP + "/rapidjson/include", TP + "/libb64-1.2.1/include", TP + "/libyaml-690a781/include",
            TP + "/fmt-7.1.0", TP + "/civetweb-0a95342/include"], \
        ["/usr/include/hdf5/serial", OMPI, OMPI + "/openmpi"]


MPI_DEFS = ["-DMPICH_SKIP_MPICXX", "-DOMPI_SKIP_MPICXX", "-D_MPICC_H"]


def sources():
    """(source, extra defines, tag)"""
    L = S + "/libs"
    r = []

    def g(*pats):
        out = []
        for p in pats:
            out += sorted(glob.glob(p))
        return out
    for f in g(L + "/conduit/*.cpp", L + "/conduit/c/*.cpp", TP + "/libb64-1.2.1/src/cdecode.cpp",
               TP + "/libb64-1.2.1/src/cencode.cpp", TP + "/libyaml-690a781/src/*.c"):
        r.append((f, [], "conduit"))
    for f in g(L + "/blueprint/*.cpp", L + "/blueprint/c/*.cpp"):
        if f.endswith("_exe.cpp"):
            continue
        if "_blueprint_mpi" in f:
            r.append((f, MPI_DEFS + ["-DCONDUIT_BLUEPRINT_MPI_ENABLED"], "blueprint_mpi"))
        else:
            r.append((f, [], "blueprint"))
    for f in g(L + "/relay/*.cpp", L + "/relay/c/*.cpp"):
        if re.search(r"_relay_mpi|_exe\.cpp$|_adios\.cpp$|_zfp\.cpp$", f):
            continue
        r.append((f, [], "relay"))
    r.append((L + "/relay/conduit_relay_mpi.cpp", MPI_DEFS, "relay_mpi"))
    for n in ("conduit_relay_mpi_io.cpp", "conduit_relay_io_identify_protocol.cpp",
              "conduit_relay_io_blueprint.cpp", "conduit_relay_io_silo.cpp",
              "conduit_relay_io_hdf5.cpp", "c/conduit_relay_mpi_io_c.cpp"):
        r.append((L + "/relay/" + n, MPI_DEFS + ["-DCONDUIT_RELAY_IO_MPI_ENABLED"], "relay_mpi_io"))
    r.append((TP + "/civetweb-0a95342/src/CivetServer.cpp", ["-DUSE_WEBSOCKET"], "civet"))
    for f in g(VERIF + "/sim/*.cpp", VERIF + "/sim/*.c"):
        r.append((f, MPI_DEFS, "sim"))
    return r


VARIANTS = {
    "plain": ["-O1", "-g1"],
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-DVERIF_ASAN"],
}


def sha(b):
    return hashlib.sha256(b).hexdigest()


_fh = {}


def file_hash(p):
    if p not in _fh:
        try:
            with open(p, "rb") as f:
                _fh[p] = sha(f.read())
        except OSError:
            _fh[p] = None
    return _fh[p]


def compile_one(job):
    src, defs, tag, variant = job
    is_c = src.endswith(".c")
    inc, sysinc = includes()
    flags = list(VARIANTS[variant])
    if not is_c:
        flags += ["-std=c++14" if tag != "sim" else "-std=c++17"]
    flags += ["-w", "-fno-pie", "-DCONDUIT_VERIF_SIM"] + defs
    if tag == "sim":
        flags += ["-Wall", "-Wno-unused-function", "-Wno-sign-compare"]
        flags.remove("-w")
        flags += ["-I" + VERIF + "/sim"]
    flags += ["-I" + i for i in inc]
    for i in sysinc:
        flags += ["-isystem", i]
    cc = "gcc" if is_c else "g++"
    ident = sha(json.dumps([cc, flags, src]).encode())
    man = "%s/man/%s.json" % (OUT, ident)
    entries = []
    if os.path.exists(man):
        try:
            entries = json.load(open(man))
        except ValueError:
            entries = []
    for e in entries:
        if all(file_hash(p) == h for p, h in e["deps"]) and os.path.exists(e["obj"]):
            return e["obj"], False, ""
    dep = tempfile.mktemp(suffix=".d", dir=OUT + "/tmp")
    tmpo = tempfile.mktemp(suffix=".o", dir=OUT + "/tmp")
    p = subprocess.run([cc] + flags + ["-MD", "-MF", dep, "-c", src, "-o", tmpo],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return None, True, "%s:\n%s" % (src, p.stdout)
    if tag == "sim" and p.stdout.strip():
        sys.stderr.write(p.stdout)
    txt = open(dep).read().replace("\\\n", " ")
    os.unlink(dep)
    deps = [d for d in txt.split(":", 1)[1].split() if not d.startswith("/usr/")]
    deps = [(d, file_hash(d)) for d in deps]
    key = sha(json.dumps([ident, deps]).encode())
    obj = "%s/obj/%s_%s.o" % (OUT, os.path.basename(src).replace(".", "_"), key[:20])
    os.replace(tmpo, obj)
    entries = [{"deps": deps, "obj": obj}] + entries[:3]
    for e in entries[4:]:
        pass
    with open(man + ".tmp", "w") as f:
        json.dump(entries, f)
    os.replace(man + ".tmp", man)
    return obj, True, ""


def build(variant="plain", verbose=False):
    for d in ("man", "obj", "tmp", "bin"):
        os.makedirs(OUT + "/" + d, exist_ok=True)
    lock = open(OUT + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    for f in glob.glob(OUT + "/tmp/*"):
        os.unlink(f)
    gen_headers()
    jobs = [(s, d, t, variant) for s, d, t in sources()]
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        res = list(ex.map(compile_one, jobs))
    errs = [r[2] for r in res if r[0] is None]
    if errs:
        raise SystemExit("BUILD FAILED\n" + "\n".join(errs)[:20000])
    objs = sorted(r[0] for r in res)
    # identical source compiled twice with different flags gives two objects; keep order stable
    libs = ["-lsiloh5", "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lparmetis", "-lmetis",
            "-lz", "-lpthread", "-ldl", "-lrt"]
    fl = ["-no-pie", "-rdynamic"] + (["-fsanitize=address"] if variant == "asan" else [])
    # conduit's own calls that hand out or give back HDF5 and Silo identifiers pass through h5track.cpp
    src = open(VERIF + "/sim/h5track.cpp").read()
    wraps = sorted(set(re.findall(r"(?:OPENER\(|CLOSER\(|__wrap_)((?:H5|DB)\w+)", src)))
    fl += ["-Wl,--wrap=" + w for w in wraps]
    key = sha(json.dumps([objs, libs, fl]).encode())[:24]
    exe = "%s/bin/sim_%s_%s" % (OUT, variant, key)
    if not os.path.exists(exe):
        for old in glob.glob("%s/bin/sim_%s_*" % (OUT, variant)):
            if os.environ.get("VERIF_KEEP_BIN") is None:
                # binaries of other trees; a running check keeps its inode
                os.unlink(old)
        rsp = OUT + "/tmp/link.rsp"
        open(rsp, "w").write("\n".join(objs))
        p = subprocess.run(["g++"] + fl + ["@" + rsp, "-o", exe + ".tmp"] + libs,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise SystemExit("LINK FAILED\n" + p.stdout[:20000])
        os.replace(exe + ".tmp", exe)
    # keep the cache small
    allobj = sorted(glob.glob(OUT + "/obj/*.o"), key=os.path.getmtime)
    keep = set(objs)
    for o in allobj[:-1200]:
        if o not in keep:
            os.unlink(o)
    n = sum(1 for r in res if r[1])
    fcntl.flock(lock, fcntl.LOCK_UN)
    return exe, n, len(res)


if __name__ == "__main__":
    exe, n, tot = build(sys.argv[1] if len(sys.argv) > 1 else "plain")
    sys.stderr.write("built %d of %d objects\n" % (n, tot))
    print(exe)
