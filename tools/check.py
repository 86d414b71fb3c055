#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]

Builds the harnesses of one property from /repo's working tree, runs them in
parallel shards, and turns what their monitors recorded into a verdict:
exit 0 (held on everything observed), exit 1 with VIOLATION lines, anything
else is an error of the check itself.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B            # noqa: E402
from props import PROPS      # noqa: E402

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")
NPROC = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))


def known_findings(pid):
    """finding: property=<id> key=<regex> :: <what fails>"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def san_env(flavor, log):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:"
                         "detect_stack_use_after_return=1:"
                         "allocator_may_return_null=0:max_allocation_size_mb=6000:"
                         "symbolize=1")
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:silence_unsigned_overflow=1"
    e["TSAN_OPTIONS"] = ("halt_on_error=0:exitcode=0:second_deadlock_stack=0:"
                         "history_size=4:report_signal_unsafe=0:log_path=" + log)
    if flavor == "tsan":
        e["VERIF_PAR"] = "1"
    sym = shutil.which("llvm-symbolizer-18") or shutil.which("llvm-symbolizer")
    if sym:
        e["ASAN_SYMBOLIZER_PATH"] = sym
        e["TSAN_OPTIONS"] += ":external_symbolizer_path=" + sym
    return e


def run_proc(cmd, env, timeout, errfile):
    with open(errfile, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env,
                             start_new_session=True)
        try:
            return p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            return "timeout"


def tail(path, n=6000):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            sz = f.tell()
            f.seek(max(0, sz - 200000))
            return f.read().decode("utf8", "replace")[-n:]
    except OSError:
        return ""


def crash_key(err):
    """A stable name for a crash: error kind and innermost SPU function."""
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    kind = m.group(1) if m else ""
    if not kind:
        m = re.search(r"(Assertion|terminate called|what\(\)|DEADLYSIGNAL)", err)
        kind = m.group(1) if m else "abort"
    fn = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.*?) (/\S+?)(?::\d+)*\n", err):
        if "/src/libspu/" in m.group(2):
            fn = os.path.basename(m.group(2)) + ":" + re.sub(
                r"[<(].*", "", m.group(1))[:80]
            break
    return "crash:%s:%s" % (kind, fn)


def tsan_reports(prefix):
    """De-duplicated ThreadSanitizer reports, keyed by kind and SPU frames."""
    d = os.path.dirname(prefix)
    out = {}
    for f in sorted(os.listdir(d)):
        if not f.startswith(os.path.basename(prefix) + "."):
            continue
        txt = open(os.path.join(d, f), errors="replace").read()
        for blk in txt.split("==================\n"):
            m = re.search(r"WARNING: ThreadSanitizer: (.*?) \(pid", blk)
            if not m:
                continue
            stacks = re.split(r"\n\n", blk)
            fns = []
            for st in stacks[:2]:
                got = ""
                for fm in re.finditer(r"#\d+ (.*?) (/\S+?):\d+", st):
                    if "/src/libspu/" in fm.group(2):
                        got = os.path.basename(fm.group(2)) + ":" + re.sub(
                            r"[<(].*", "", fm.group(1))[:80]
                        break
                if got:
                    fns.append(got)
            if not fns:
                continue        # no SPU frame in either access
            key = "tsan:%s:%s" % (m.group(1).replace(" ", "-"),
                                  "|".join(sorted(set(fns))))
            out.setdefault(key, blk[:3000])
    return out


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.fail = {}          # key -> dict(msg, desc, case, count, cmd)
        self.counts, self.groups, self.cover = {}, {}, set()
        self.samples, self.inc = [], []
        self.done = 0
        self.ub = {}
        self.shards_ok = 0

    def add_fail(self, key, **kw):
        e = self.fail.setdefault(key, dict(count=0, **kw))
        e["count"] += kw.get("n", 1)

    def shard(self, tmp, spec, bin_, k, n, only=None, timeout=600):
        tag = "%s-%s.%s.%s" % (spec["harness"], spec.get("group", ""), k, "o" if only is not None else "s")
        out = os.path.join(tmp, tag + ".json")
        cur = os.path.join(tmp, tag + ".cur")
        err = os.path.join(tmp, tag + ".err")
        cmd = [bin_, "--seed", str(self.seed), "--tier", self.tier,
               "--out", out, "--cur", cur]
        for g in ("scale",):
            if g in spec:
                cmd += ["--" + g, str(spec[g])]
        if spec.get("group"):
            cmd += ["--group", spec["group"]]
        if only is not None:
            cmd += ["--only", str(only)]
        else:
            cmd += ["--shard", str(k), "--nshards", str(n)]
        rc = run_proc(cmd, san_env(spec["flavor"], os.path.join(tmp, tag + ".tsan")),
                      timeout, err)
        res = None
        if rc == 0 and os.path.exists(out):
            try:
                res = json.load(open(out))
            except ValueError:
                res = None
        c = ""
        if os.path.exists(cur):
            c = open(cur, "rb").read().split(b"\0")[0].decode("utf8", "replace")
        return dict(rc=rc, res=res, cur=c, err=tail(err), cmd=cmd,
                    tsan=os.path.join(tmp, tag + ".tsan"))

    def merge(self, spec, r):
        res = r["res"]
        self.shards_ok += 1
        self.done += res["done"]
        self.cover.update((spec["harness"], x) for x in res["cover"])
        for k, v in res["counts"].items():
            self.counts[k] = self.counts.get(k, 0) + v
        for k, v in res["groups"].items():
            self.groups[k] = self.groups.get(k, 0) + v
        for k, v in res["ub"].items():
            self.ub[k] = self.ub.get(k, 0) + v
        self.samples += res["samples"][:3]
        for f in res["failures"]:
            key = f["key"]
            if key not in self.fail:
                self.fail[key] = dict(count=0, msg=f["msg"], desc=f["desc"],
                                      group=f["group"], case=f["case"],
                                      harness=spec["harness"],
                                      flavor=spec["flavor"])
        for k, v in res["fail_counts"].items():
            if k in self.fail:
                self.fail[k]["count"] += v
        if spec["flavor"] == "tsan":
            for k, blk in tsan_reports(r["tsan"]).items():
                self.add_fail(k, msg=blk, desc="", case=None,
                              harness=spec["harness"], flavor="tsan", group="")
        return res["inconclusive"]

    def go(self, tmp, specs, bins):
        jobs = []
        for spec, b in zip(specs, bins):
            n = spec.get("shards", NPROC)
            jobs += [(spec, b, k, n) for k in range(n)]
        tmo = 430 if self.tier == "quick" else 3000
        with cf.ThreadPoolExecutor(NPROC) as ex:
            rs = list(ex.map(lambda j: (j, self.shard(tmp, *j[:4], timeout=tmo)),
                             jobs))
        for (spec, b, k, n), r in rs:
            if r["res"] is not None:
                for inc in self.merge(spec, r):
                    self.retry(tmp, spec, b, int(inc.split()[0]), inc)
                continue
            case = r["cur"].split("\t")
            if r["rc"] == "timeout":
                if not case[0]:
                    self.inc.append("shard timed out outside a case: " + str(r["cmd"]))
                    continue
                self.retry(tmp, spec, b, int(case[0]), "shard timed out in " + r["cur"])
                continue
            if r["rc"] == 2 or not case[0]:
                raise RuntimeError("harness failed: rc=%s\n%s\n%s" % (
                    r["rc"], " ".join(r["cmd"]), r["err"]))
            self.add_fail(crash_key(r["err"]), msg=r["err"], desc=r["cur"],
                          case=int(case[0]), group=case[1],
                          harness=spec["harness"], flavor=spec["flavor"])
            # the rest of the shard, split so that one crash does not hide it

    def retry(self, tmp, spec, b, case, why):
        if sum(1 for f in self.fail if f.startswith("hang:")) >= 2:
            return
        r = self.shard(tmp, spec, b, "r%d" % case, 1, only=case, timeout=150)
        if r["res"] is not None and not r["res"]["inconclusive"]:
            self.merge(spec, r)
            self.inc.append("re-run decided: " + why[:300])
        elif r["res"] is not None or r["rc"] == "timeout":
            grp = (r["cur"].split("\t") + ["", ""])[1]
            if r["res"] is not None:
                grp = r["res"]["inconclusive"][0].split()[1]
            self.add_fail("hang:%s" % grp, msg="did not finish, twice: " + why,
                          desc=r["cur"] or why, case=case, group=grp,
                          harness=spec["harness"], flavor=spec["flavor"])
        else:
            self.add_fail(crash_key(r["err"]), msg=r["err"], desc=r["cur"],
                          case=case, group="", harness=spec["harness"],
                          flavor=spec["flavor"])


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    for i, a in enumerate(sys.argv):
        if a == "--tier":
            tier = sys.argv[i + 1]
        if a == "--seed":
            seed = int(sys.argv[i + 1])
    p = PROPS[pid]
    t0 = time.time()
    specs = [s for s in p["runs"] if tier in s.get("tiers", ("quick", "thorough"))]
    for s in specs:
        s.setdefault("flavor", "asan")
    bins = {}
    for fl in sorted({s["flavor"] for s in specs}):
        hs = sorted({s["harness"] for s in specs if s["flavor"] == fl})
        for h, b in zip(hs, B.build(fl, hs)):
            bins[(fl, h)] = b
    t_build = time.time() - t0
    run = Run(pid, tier, seed)
    tmp = tempfile.mkdtemp(prefix="vspu-")
    try:
        run.go(tmp, specs, [bins[(s["flavor"], s["harness"])] for s in specs])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if p.get("ub"):
        for k, v in run.ub.items():
            kind, loc, msg = (k.split("|") + ["", "", ""])[:3]
            f = re.sub(r"^.*/src/libspu/", "", loc.rsplit(":", 1)[0])
            if "/src/libspu/" not in loc:
                continue        # a report in the stand-ins or the harness
            run.add_fail("ub:%s:%s" % (kind, f), msg=k, desc="", case=None,
                         harness="", flavor="asan", group="", n=v)
    if not run.fail and (run.done == 0 or not run.cover or
                         not sum(run.counts.values())):
        print("check %s observed nothing" % pid)
        return 2
    known = known_findings(pid)
    viol = []
    seen_known = {}
    keep = p.get("keys")
    for k, f in sorted(run.fail.items()):
        if keep and not re.search(keep, k):
            continue
        for rx, what in known:
            if rx.search(k):
                seen_known[what] = seen_known.get(what, 0) + f["count"]
                break
        else:
            viol.append((k, f))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": p.get("level", "exploration"),
        "coverage": {
            "evaluations": run.done,
            "distinct_nontrivial": len(run.cover),
            "rule": p["rule"],
            "samples": run.samples[:12],
            "observed": dict(sorted(run.counts.items())),
            "cases_per_group": dict(sorted(run.groups.items())),
            "inconclusive": run.inc[:20],
        },
        "assumptions": p.get("assumptions", []) + [
            "third-party libraries (yacl, xtensor, SEAL, emp, brpc, leveldb) are stand-ins, see DESIGN.md"],
        "violations": len(viol),
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(t_build, 2),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for what in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if viol:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        for i, (k, f) in enumerate(viol[:12]):
            path = os.path.join(VERIF, "replay", "%s-%d.json" % (pid, i))
            f = dict(f)
            f["key"] = k
            f["seed"] = seed
            f["tier"] = tier
            if f.get("case") is not None and f.get("harness"):
                f["replay"] = ("cd /verif && python3 tools/build.py %s %s && build/bin/%s/%s "
                               "--seed %d --tier %s --only %s" % (
                                   f["flavor"], f["harness"], f["flavor"],
                                   f["harness"], seed, tier, f["case"]))
            json.dump(f, open(path, "w"), indent=1)
            print("%s: %s (x%d) %s" % (pid, k, f["count"],
                                       f["msg"][:400].replace("\n", " / ")))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s held: %d cases, %d distinct, %s (%.0fs, build %.0fs)" % (
        pid, run.done, len(run.cover), json.dumps(run.counts)[:300],
        time.time() - t0, t_build))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except B.BuildError as e:
        print("build failed:\n" + str(e)[-6000:])
        sys.exit(3)
