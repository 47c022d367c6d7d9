#!/usr/bin/env python3
"""Builds /repo's current sources and the drivers, per variant, under /verif/build.

Variants:
  asan  serial, Debug, clang ASan+UBSan -> driver
  pool  as asan, with the memory pool for ellblock (BML_ELLBLOCK_MEMPOOL) -> driver
  alt   as asan, with the internal GEMM, the plain eigensolver and without posix_memalign -> driver
  omp   OpenMP, clang TSan, own OpenMP runtime (src/omp_rt.cpp) -> driver
  ompa  the same under ASan+UBSan
  mpi   MPI + ScaLAPACK, clang ASan+UBSan -> driver, started by mpidrive.py
A build directory is reused incrementally; when a source's content changed
while its time stamp did not move forward (a copied tree) the library part is
rebuilt from scratch."""
import fcntl, hashlib, json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BML_REPO", "/repo")
BUILD = os.environ.get("BML_BUILD", os.path.join(HERE, "build"))
CMAKE = ["-G", "Ninja", "-DBML_TESTING=no", "-DBLAS_VENDOR=OpenBLAS", "-DBUILD_SHARED_LIBS=no",
         "-DADDR2LINE=/bin/false"]
WRAP = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=posix_memalign,--wrap=bml_allocate_memory,--wrap=bml_noinit_allocate_memory,--wrap=bml_reallocate_memory"
V = {
 "asan": dict(env=dict(CC="clang", CXX="clang++", FC="gfortran"), cmake=["-DCMAKE_BUILD_TYPE=Debug", "-DBML_OPENMP=no"],
              cflags="-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=nonnull-attribute,alignment -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern",
              cxx="clang++", hflags=["-O1", "-g1", "-DRUN_ASAN"], link=["-fsanitize=address,undefined", WRAP]),
 "pool": dict(env=dict(CC="clang", CXX="clang++", FC="gfortran"), cmake=["-DCMAKE_BUILD_TYPE=Debug", "-DBML_OPENMP=no", "-DBML_ELLBLOCK_MEMPOOL=yes"],
              cflags="-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=nonnull-attribute,alignment -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern",
              cxx="clang++", hflags=["-O1", "-g1", "-DRUN_ASAN", "-DRUN_POOL", "-DBML_ELLBLOCK_USE_MEMPOOL"], link=["-fsanitize=address,undefined", WRAP]),
 "alt": dict(env=dict(CC="clang", CXX="clang++", FC="gfortran"), cmake=["-DCMAKE_BUILD_TYPE=Debug", "-DBML_OPENMP=no", "-DBML_INTERNAL_BLAS=yes", "-DBML_SYEVD=no", "-DBML_POSIX_MEMALIGN=no"],
              cflags="-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=nonnull-attribute,alignment -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern",
              cxx="clang++", hflags=["-O1", "-g1", "-DRUN_ASAN", "-DRUN_ALT"], link=["-fsanitize=address,undefined", WRAP]),
 "omp": dict(env=dict(CC="clang", CXX="clang++", FC="gfortran"), cmake=["-DCMAKE_BUILD_TYPE=Debug", "-DBML_OPENMP=no"],
             cflags="-O1 -g1 -Xclang -fopenmp -fsanitize=thread -ftrivial-auto-var-init=pattern -I" + os.path.join(HERE, "src/omp"),
             cxx="clang++", hflags=["-O1", "-g1", "-fsanitize=thread", "-DRUN_TSAN"], link=["-fsanitize=thread"]),
 "ompa": dict(env=dict(CC="clang", CXX="clang++", FC="gfortran"), cmake=["-DCMAKE_BUILD_TYPE=Debug", "-DBML_OPENMP=no"],
             cflags="-O1 -g1 -Xclang -fopenmp -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=nonnull-attribute,alignment -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern -I" + os.path.join(HERE, "src/omp"),
             cxx="clang++", hflags=["-O1", "-g1", "-DRUN_ASAN"], link=["-fsanitize=address,undefined"]),
 "mpi": dict(env=dict(CC="mpicc", CXX="mpic++", FC="mpifort", OMPI_CC="clang", OMPI_CXX="clang++", OMPI_FC="gfortran"),
             cmake=["-DCMAKE_BUILD_TYPE=Debug", "-DBML_OPENMP=no", "-DBML_MPI=yes", "-DBML_SCALAPACK=yes", "-DSCALAPACK_LIBRARIES=scalapack-openmpi.so",
                    "-DBML_MPIEXEC_EXECUTABLE=/usr/bin/mpiexec", "-DBML_MPIEXEC_NUMPROCS=4"],
             cflags="-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=nonnull-attribute,alignment -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern",
             cxx="mpic++", hflags=["-O1", "-g1", "-DRUN_ASAN", "-DBML_USE_MPI", "-DBML_COMPLEX"], link=["-fsanitize=address,undefined", "-l:libscalapack-openmpi.so", "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=posix_memalign,--wrap=free"]),
}
def sources(variant):
    d = os.path.join(HERE, "src")
    common = ["runner.cpp"]
    fs = sorted(f for f in os.listdir(d) if f.endswith(".cpp"))
    if variant in ("asan", "pool", "alt"): return [f for f in fs if not f.startswith(("mpi_", "omp_"))]
    if variant in ("omp", "ompa"): return ["runner.cpp"] + [f for f in fs if f.startswith("omp_")]
    if variant == "mpi": return [f for f in fs if f.startswith("mpi_")]
def manifest():
    m = {}
    for root in ("src", "cmake", "CMakeLists.txt"):
        p = os.path.join(REPO, root)
        for d, _, fs in (os.walk(p) if os.path.isdir(p) else [(REPO, [], [root])]):
            for f in fs:
                q = os.path.join(d, f)
                try: m[q] = [hashlib.sha256(open(q, "rb").read()).hexdigest(), os.path.getmtime(q)]
                except OSError: pass
    return m
def run(cmd, env=None, log=None):
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write("build failed: %s\n%s\n" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
        raise SystemExit(3)
    return r.stdout.decode(errors="replace")
def build(variant):
    v = V[variant]; b = os.path.join(BUILD, variant); os.makedirs(b, exist_ok=True)
    with open(os.path.join(BUILD, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mf = os.path.join(b, "verif-manifest.json"); cur = manifest()
        cfgkey = hashlib.sha256(json.dumps([v, CMAKE, REPO], sort_keys=True).encode()).hexdigest()
        wipe = True
        if os.path.exists(mf):
            old = json.load(open(mf)); wipe = old.get("cfg") != cfgkey
            for q, (h, t) in cur.items():
                o = old["files"].get(q)
                if o and o[0] != h and t <= old["time"]: wipe = True
                if not o and t <= old["time"]: wipe = True
            if set(old["files"]) - set(cur): wipe = True
        if wipe:
            subprocess.run(["rm", "-rf", b]); os.makedirs(b)
            run(["cmake", "-S", REPO, "-B", b] + CMAKE + v["cmake"] + ["-DCMAKE_C_FLAGS=" + v["cflags"]], v["env"])
        t0 = time.time()
        run(["ninja", "-C", b], v["env"])
        json.dump(dict(cfg=cfgkey, files=cur, time=t0), open(mf, "w"))
        # drivers: a small ninja file of our own
        h = os.path.join(b, "harness"); os.makedirs(h, exist_ok=True)
        inc = ["-I" + os.path.join(REPO, "src/C-interface"), "-I" + os.path.join(HERE, "src")]
        srcs = sources(variant)
        L = ["rule cxx\n  command = %s -std=c++17 -w %s %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n" % (v["cxx"], " ".join(v["hflags"]), " ".join(inc)),
             "rule fc\n  command = %s -g -cpp -ffree-line-length-none -I%s -J%s -c $in -o $out\n" % (v["env"]["FC"], find_mod(b), h),
             "rule link\n  command = %s %s -o $out $in %s\n" % (v["cxx"], " ".join(v["link"]),
              " ".join([os.path.join(b, "src/libbml_fortran.a"), os.path.join(b, "src/libbml.a")] + v["link"] + ["-llapack", "-lopenblas", "-lgfortran", "-lm", "-lpthread"]))]
        objs = []
        for s in srcs:
            o = os.path.join(h, s + ".o"); objs.append(o)
            L.append("build %s: cxx %s\n" % (o, os.path.join(HERE, "src", s)))
        if variant in ("asan", "pool", "alt"):
            for s in sorted(os.listdir(os.path.join(HERE, "src"))):
                if s.endswith(".F90"):
                    o = os.path.join(h, s + ".o"); objs.append(o)
                    L.append("build %s: fc %s | %s\n" % (o, os.path.join(HERE, "src", s), os.path.join(b, "src/libbml_fortran.a")))
        drv = os.path.join(b, "driver")
        L.append("build %s: link %s | %s %s\n" % (drv, " ".join(objs), os.path.join(b, "src/libbml.a"), os.path.join(b, "src/libbml_fortran.a")))
        txt = "\n".join(L); nf = os.path.join(h, "build.ninja")
        if not os.path.exists(nf) or open(nf).read() != txt: open(nf, "w").write(txt)
        run(["ninja", "-C", h, drv], v["env"])
    return drv
def find_mod(b):
    for d, _, fs in os.walk(os.path.join(b, "src")):
        if "bml.mod" in fs: return d
    return b
if __name__ == "__main__":
    for x in sys.argv[1:] or list(V):
        t = time.time(); build(x); print("built %s in %.1fs" % (x, time.time() - t))
