"""Builds main.cc against the SPU sources in the current directory with the
stand-ins of kit.tgz, in a scratch directory, and runs it.
  kit.py HERE [--san address|thread|undefined] [--dirs d1,d2] [--no d]"""
import concurrent.futures as cf
import glob
import os
import re
import shutil
import subprocess
import sys
import tarfile
import tempfile

here = sys.argv[1]
san, only = [], None
a = sys.argv[2:]
while a:
    k = a.pop(0)
    if k == "--san":
        san = ["-fsanitize=" + a.pop(0)]
    elif k == "--dirs":
        only = a.pop(0).split(",")
src = os.path.join(os.getcwd(), "src")
tmp = tempfile.mkdtemp(prefix="demo-")
try:
    with tarfile.open(os.path.join(here, "kit.tgz")) as t:
        t.extractall(tmp)
    gen = os.path.join(tmp, "gen")
    os.makedirs(gen)
    protos = ["libspu/spu.proto",
              "libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/service.proto"]
    for p in protos:
        subprocess.run(["protoc", "--cpp_out=" + gen, "-I" + src,
                        os.path.join(src, p)], check=True)
    for p in protos:
        f = os.path.join(gen, p[:-6] + ".pb.h")
        s = open(f).read()
        s = re.sub(r"(\n *// @@protoc_insertion_point\(class_scope:[^\n]*)",
                   r"\1\n public: inline bool ParseFromString(std::string_view s)"
                   r" { return ParseFromArray(s.data(), static_cast<int>(s.size())); }", s)
        s = s.replace("#include <string>\n", "#include <string>\n#include <string_view>\n", 1)
        open(f, "w").write(s)
    sh = os.path.join(tmp, "shim")
    fl = ["-std=gnu++17", "-O0", "-g1" if san else "-g0", "-w", "-Wno-enum-constexpr-conversion",
          "-DSPU_BUILD", "-DSPDLOG_SHARED_LIB", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL",
          "-DLLVM_DISABLE_ABI_BREAKING_CHECKS_ENFORCING=1", "-maes", "-mpclmul", "-msse4.2",
          "-pthread", "-I" + os.path.join(sh, "include"), "-I" + src, "-I" + gen,
          "-I/usr/include/eigen3", "-I/usr/lib/llvm-18/include", "-I" + os.path.join(tmp, "harness")] + san
    pch = os.path.join(tmp, "pch.h.pch")
    subprocess.run(["clang++"] + fl + ["-x", "c++-header", os.path.join(sh, "pch.h"), "-o", pch],
                   check=True)
    ex = re.compile(r"(_test|_bench|_benchmark|test_util|_gpu)\.cc$|gpu|server_main|ot/emp/|"
                    r"yacl_ote_adapter|benchmark|/core/logging\.cc$|/tools/")
    dirs = [x for x in open(os.path.join(tmp, "dirs.txt")).read().split()]
    srcs = []
    for d in dirs:
        if only and not any(d == o or (o.endswith("*") and d.startswith(o[:-1])) for o in only):
            continue
        srcs += sorted(glob.glob(os.path.join(src, "libspu", d, "*.cc")))
    if not only:
        srcs += [os.path.join(src, "libspu", e) for e in (
            "device/io.cc", "device/symbol_table.cc", "device/utils/debug_dump_constant.cc")]
    srcs = [os.path.normpath(s) for s in srcs if not ex.search(os.path.normpath(s)[len(src):])]
    srcs += [os.path.join(gen, p[:-6] + ".pb.cc") for p in protos]
    srcs += sorted(glob.glob(os.path.join(sh, "src", "*.cc"))) if not only else \
        [os.path.join(sh, "src", f) for f in ("vmon.cc", "vh.cc", "absl_shim.cc", "llvm_shim.cc")]
    srcs.append(os.path.join(here, "main.cc"))

    def comp(i):
        o = os.path.join(tmp, "%d.o" % i)
        base = ["clang++"] + fl
        r = subprocess.run(base + ["-Xclang", "-include-pch", "-Xclang", pch, "-c", srcs[i], "-o", o],
                           capture_output=True, text=True)
        if r.returncode:
            r = subprocess.run(base + ["-c", srcs[i], "-o", o], capture_output=True, text=True)
        if r.returncode:
            print(r.stderr[-3000:])
            return None
        return o
    heavy = ("aby3", "swift", "ring_ops", "conversion", "pv2k", "permute", "arithmetic")
    order = sorted(range(len(srcs)), key=lambda i: not any(h in srcs[i] for h in heavy))
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex_:
        objs = list(ex_.map(comp, order))
    if None in objs:
        sys.exit(3)
    exe = os.path.join(tmp, "demo")
    mo = objs[order.index(len(srcs) - 1)]
    lib = os.path.join(tmp, "l.a")
    subprocess.run(["ar", "rcsT", lib] + [o for o in objs if o != mo], check=True)
    subprocess.run(["clang++", "-fuse-ld=lld", "-pthread", mo, lib, "-lprotobuf", "-lfmt", "-lspdlog",
                    "-lcrypto", "-labsl_throw_delegate", "-labsl_strings", "-labsl_int128",
                    "-labsl_raw_logging_internal", "-labsl_base", "-labsl_strings_internal",
                    "-o", exe] + san, check=True)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", TSAN_OPTIONS="exitcode=66")
    r = subprocess.run([exe], env=env, timeout=200, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    print(r.stdout[-4000:])
    print("exit", r.returncode)
    rc = 0 if r.returncode == 0 else 1
except subprocess.TimeoutExpired:
    print("timed out")
    rc = 1
finally:
    shutil.rmtree(tmp, ignore_errors=True)
sys.exit(rc)
