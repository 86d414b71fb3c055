#!/usr/bin/env python3
"""Builds the real SPU sources from /repo's working tree plus the stand-ins in
/verif/shim, under clang sanitizers, and links the harnesses.

  build.py FLAVOR HARNESS...      (FLAVOR: asan | tsan | plain)

Objects are cached by content hash of the preprocessed translation unit's
inputs (ccache), so a change of any file under /repo/src is always rebuilt.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SHIM = os.path.join(VERIF, "shim")
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))

SAN = {
    "asan": "-fsanitize=address,shift,signed-integer-overflow,"
            "integer-divide-by-zero,float-cast-overflow,bool,enum,unreachable,"
            "return,bounds".split(),
    "tsan": ["-fsanitize=thread"],
    "plain": [],
}
OPT = {"asan": "-O1", "tsan": "-O1", "plain": "-O1"}
EXCLUDE = re.compile(r"(_test|_bench|_benchmark|test_util|_gpu)\.cc$|gpu|server_main|"
                     r"ot/emp/|yacl_ote_adapter|benchmark|/core/logging\.cc$|/tools/")
# directories (relative to src/libspu) whose *.cc make up the library
DIRS = [
    ".", "core", "mpc", "mpc/common", "mpc/utils", "mpc/standard_shape",
    "mpc/ref2k", "mpc/aby3", "mpc/securenn", "mpc/semi2k",
    "mpc/semi2k/beaver", "mpc/semi2k/beaver/beaver_impl",
    "mpc/semi2k/beaver/beaver_impl/trusted_party",
    "mpc/semi2k/beaver/beaver_impl/ttp_server",
    "mpc/spdz2k", "mpc/spdz2k/beaver", "mpc/spdz2k/ot",
    "mpc/experimental/swift", "mpc/cheetah", "mpc/cheetah/ot",
    "mpc/cheetah/ot/yacl", "mpc/cheetah/nonlinear", "kernel", "kernel/hal", "kernel/hlo",
]
EXTRA = ["device/io.cc", "device/symbol_table.cc",
         "device/utils/debug_dump_constant.cc"]
PROTOS = ["libspu/spu.proto",
          "libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/service.proto"]


class BuildError(Exception):
    pass


def sources():
    out = []
    for d in DIRS:
        out += sorted(glob.glob(os.path.join(SRC, "libspu", d, "*.cc")))
    out += [os.path.join(SRC, "libspu", e) for e in EXTRA]
    res = []
    for p in out:
        p = os.path.normpath(p)
        if EXCLUDE.search(p[len(SRC):]) or not os.path.exists(p):
            continue
        res.append(p)
    return res


def write_if_changed(path, data):
    try:
        if open(path, "rb").read() == data:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def gen_protos():
    gen = os.path.join(OUT, "gen")
    tmp = os.path.join(OUT, "gen.tmp")
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    for p in PROTOS:
        subprocess.run(["protoc", "--cpp_out=" + tmp, "-I" + SRC,
                        os.path.join(SRC, p)], check=True)
    for root, _, fs in os.walk(tmp):
        for f in fs:
            p = os.path.join(root, f)
            s = open(p).read()
            if f.endswith(".pb.h"):
                # newer protobuf takes string_view here
                s = re.sub(
                    r"(\n *// @@protoc_insertion_point\(class_scope:[^\n]*)",
                    r"\1\n public: inline bool ParseFromString("
                    r"std::string_view s) { return ParseFromArray(s.data(), "
                    r"static_cast<int>(s.size())); }", s)
                s = s.replace("#include <string>\n",
                              "#include <string>\n#include <string_view>\n", 1)
            write_if_changed(os.path.join(gen, os.path.relpath(p, tmp)),
                             s.encode())
    shutil.rmtree(tmp)
    return gen


def flags(flavor):
    return (["-std=gnu++17", OPT[flavor], "-gline-tables-only", "-w", "-Wno-enum-constexpr-conversion",
             "-fno-omit-frame-pointer", "-DSPU_BUILD", "-DSPDLOG_SHARED_LIB", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL", "-DLLVM_DISABLE_ABI_BREAKING_CHECKS_ENFORCING=1", "-maes", "-mpclmul",
             "-msse4.2", "-pthread", "-Xclang", "-fno-pch-timestamp"] + SAN[flavor] +
            ["-I" + os.path.join(SHIM, "include"), "-I" + SRC,
             "-I" + os.path.join(OUT, "gen"), "-I/usr/include/eigen3",
             "-I/usr/lib/llvm-18/include", "-I" + os.path.join(VERIF, "harness")])


def env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(OUT, "ccache")
    e["CCACHE_MAXSIZE"] = "6G"
    e["CCACHE_SLOPPINESS"] = "pch_defines,time_macros,include_file_mtime,include_file_ctime"
    e["CCACHE_NOHASHDIR"] = "1"
    e["CCACHE_COMPILERCHECK"] = "content"
    e["CCACHE_PCH_EXTSUM"] = "1"
    e["CCACHE_TEMPDIR"] = os.path.join(OUT, "ccache-tmp")
    return e


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, env=env(), **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd[:3]) + " ... " + cmd[-1] + "\n" +
                         r.stdout[-4000:])
    return r.stdout


def make_pch(flavor):
    src = os.path.join(SHIM, "pch.h")
    fl = flags(flavor)
    out = os.path.join(OUT, "pch", flavor, "pch.h.pch")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    h = hashlib.sha256("\0".join(fl).encode())
    for root, _, fs in sorted(os.walk(os.path.join(SHIM, "include"))):
        for f in sorted(fs):
            h.update(open(os.path.join(root, f), "rb").read())
    h.update(open(src, "rb").read())
    stamp = out + ".sum"          # also what ccache hashes for the pch
    if os.path.exists(out) and os.path.exists(stamp) and \
            open(stamp).read() == h.hexdigest():
        return out
    run(["clang++"] + fl + ["-x", "c++-header", src, "-o", out])
    open(stamp, "w").write(h.hexdigest())
    return out


def compile_one(flavor, pch, src, obj):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    t = time.time()
    cmd = ["ccache", "clang++"] + flags(flavor)
    if pch:
        cmd += ["-Xclang", "-include-pch", "-Xclang", pch]
    try:
        run(cmd + ["-c", "-o", obj, src])
    except BuildError as e:
        if not pch:
            raise
        # a source may collide with the precompiled headers: try without
        run(["ccache", "clang++"] + flags(flavor) + ["-c", "-o", obj, src])
    return time.time() - t


def lib_objs(flavor, log=None):
    gen = os.path.join(OUT, "gen")
    srcs = sources()
    srcs += [os.path.join(gen, p[:-6] + ".pb.cc") for p in PROTOS]
    srcs += sorted(glob.glob(os.path.join(SHIM, "src", "*.cc")))
    pairs = []
    for s in srcs:
        if s.startswith(SRC):
            rel = os.path.relpath(s, SRC)
        elif s.startswith(gen):
            rel = "gen/" + os.path.relpath(s, gen)
        else:
            rel = "shim/" + os.path.relpath(s, SHIM)
        pairs.append((s, os.path.join(OUT, "obj", flavor, rel + ".o")))
    return pairs


HEAVY = ["aby3/boolean", "aby3/conversion", "aby3/arithmetic", "aby3/permute",
         "swift/", "oram", "hal/permute", "securenn", "pv2k", "semi2k/conv",
         "indexing"]


def build(flavor, harnesses, verbose=False):
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(OUT, "ccache-tmp"), exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        gen_protos()
        pch = make_pch(flavor)
        pairs = lib_objs(flavor)
        hp = []
        for h in harnesses:
            s = os.path.join(VERIF, "harness", h + ".cc")
            hp.append((s, os.path.join(OUT, "obj", flavor, "harness", h + ".o")))
        todo = pairs + hp
        todo.sort(key=lambda p: next(
            (i for i, k in enumerate(HEAVY) if k in p[0]), 99))
        times, errs = {}, []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = {ex.submit(compile_one, flavor, pch, s, o): s
                    for s, o in todo}
            for f in cf.as_completed(futs):
                try:
                    times[futs[f]] = f.result()
                except BuildError as e:
                    errs.append(str(e))
        if errs:
            raise BuildError("\n".join(errs))
        lib = os.path.join(OUT, "lib", flavor, "libspu.a")
        os.makedirs(os.path.dirname(lib), exist_ok=True)
        if os.path.exists(lib):
            os.remove(lib)
        run(["llvm-ar-18" if shutil.which("llvm-ar-18") else "ar", "rcsT",
             lib] + [o for _, o in pairs])
        outs = []
        os.makedirs(os.path.join(OUT, "bin", flavor), exist_ok=True)
        for h, (_, o) in zip(harnesses, hp):
            b = os.path.join(OUT, "bin", flavor, h)
            run(["clang++", "-fuse-ld=lld", "-pthread"] + SAN[flavor] +
                [o, lib, "-lprotobuf", "-lfmt", "-lspdlog", "-lcrypto",
                 "-labsl_throw_delegate", "-labsl_strings", "-labsl_int128",
                 "-labsl_raw_logging_internal", "-labsl_base",
                 "-labsl_strings_internal", "-lpthread", "-o", b])
            outs.append(b)
        if verbose:
            for s, t in sorted(times.items(), key=lambda x: -x[1])[:25]:
                print("%6.1f %s" % (t, s))
        return outs


if __name__ == "__main__":
    t0 = time.time()
    try:
        print("\n".join(build(sys.argv[1], sys.argv[2:], verbose=True)))
    except BuildError as e:
        print(e)
        sys.exit(2)
    print("built in %.1fs" % (time.time() - t0))
