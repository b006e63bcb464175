#!/usr/bin/env python3
"""Runs the check of one property:  check.py <id> [quick|thorough]

Builds the harness of the property together with the libraries of /repo's
current working tree (in a temporary directory that is removed afterwards),
explores its bounded space in parallel shards, replays whatever failed, and
writes evidence/<id>.json.

exit 0: held on everything explored;  exit 1 + VIOLATION line: broken;
exit 2: the check itself could not run (never on a tree whose API is intact).
"""
import concurrent.futures as cf
import glob, json, os, re, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

LIBDEPS = {
    "utils": ["utils"],
    "kana": ["utils", "kana"],
    "kanji": ["utils", "kana", "kanji"],
    "quiz": ["utils", "kana", "kanji", "quiz"],
    "stats": ["utils", "kana", "kanji", "stats"],
    "all": ["utils", "kana", "kanji", "quiz", "stats"],
}
CXX = shutil.which("g++-13") or shutil.which("g++") or "g++"
BASE = ["-std=c++20", "-g1", "-pthread", "-include", "cstdint",
        "-Dishexnumber=isxdigit", "-D_GLIBCXX_ASSERTIONS", "-w"]
JOBS = os.cpu_count() or 8
DEADLINE = time.time() + 840  # the caller allows 900 s


def log(*a):
    print(*a, flush=True)


class Broken(Exception):
    """the check can't decide (build failure etc.)"""


def includes():
    r = []
    for d in ("utils", "kana", "kanji", "quiz", "stats"):
        r += ["-I", f"{REPO}/libs/{d}/include"]
    return r + ["-I", f"{VERIF}/harness"]


def compile_all(jobs):
    """jobs: (source, object, flags); returns the failures"""
    def one(j):
        src, obj, flags = j
        p = subprocess.run([CXX, *BASE, *flags, *includes(), "-c", src, "-o", obj],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return (src, p.returncode, p.stdout)
    # biggest sources first, so that the tail of the build is short
    jobs = sorted(jobs, key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, jobs))
    bad = [r for r in res if r[1]]
    if bad:
        raise Broken("compile failed: " + bad[0][0] + "\n" + bad[0][2][-3000:])


def build(spec, bd):
    """returns {name: path} of the binaries of the check"""
    flags = list(spec.get("flags", ["-O1", "-fsanitize=address"]))
    jobs, objs = [], []
    for lib in LIBDEPS[spec["lib"]]:
        for s in sorted(glob.glob(f"{REPO}/libs/{lib}/src/**/*.cpp", recursive=True)):
            o = f"{bd}/{lib}_{os.path.basename(s)}.o"
            jobs.append((s, o, flags))
            objs.append(o)
    bins = {}
    for name, src in spec["bins"].items():
        path = src.replace("@repo", REPO) if src.startswith("@repo") else f"{VERIF}/harness/{src}"
        o = f"{bd}/bin_{name}.o"
        jobs.append((path, o, flags + spec.get("harness_flags", [])))
        bins[name] = o
    for x in spec.get("runtime", []):  # parts that must not be instrumented
        jobs.append((f"{VERIF}/harness/{x}", f"{bd}/own_{x}.o", spec.get("link_flags", flags)))
    compile_all(jobs)
    out = {}
    for name, o in bins.items():
        exe = f"{bd}/{name}"
        own = [f"{bd}/own_{x}.o" for x in spec.get("runtime", [])]
        p = subprocess.run([CXX, *spec.get("link_flags", flags), "-pthread", *objs, o, *own, "-o", exe, *spec.get("ldflags", [])],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise Broken("link failed: " + p.stdout[-3000:])
        out[name] = exe
    return out


ENV = {**os.environ,
       "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:handle_segv=1",
       "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:exitcode=99",
       "TSAN_OPTIONS": "halt_on_error=1:exitcode=66"}


def run_shard(exe, out, args, timeout):
    os.makedirs(out, exist_ok=True)
    i = args[args.index("--shard") + 1].split("/")[0] if "--shard" in args else "0"
    with open(f"{out}/log.{i}", "wb") as lf:
        p = subprocess.Popen([exe, "--out", out, "--repo", REPO, "--data", os.path.dirname(exe) + ("/shipped" if os.path.exists(os.path.dirname(exe) + "/shipped") else "/data"), *args], stdout=lf, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, env=ENV, cwd=out, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = None
        finally:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
    return rc


def tail(path, n=1500):
    try:
        with open(path, "rb") as f:
            return f.read()[-n:].decode("utf-8", "replace")
    except OSError:
        return ""


def read_fails(out):
    r = []
    for f in sorted(glob.glob(f"{out}/fails.*")):
        with open(f, "rb") as fh:
            for line in fh.read().decode("utf-8", "replace").splitlines():
                p = line.split("\t")
                if len(p) >= 4:
                    r.append(dict(index=int(p[0]), key=p[1], case=p[2], msg=p[3]))
    return r


def crash_case(out, shard):
    try:
        with open(f"{out}/case.{shard}", "rb") as f:
            d = f.read()
        return int(d[:32].split(b"\0")[0]), d[32:].split(b"\0")[0].decode("utf-8", "replace")
    except (OSError, ValueError):
        return -1, ""


def summarize(text):
    """the informative line of a sanitizer/abort report"""
    for pat in (r"ERROR: AddressSanitizer[^\n]*", r"runtime error[^\n]*", r"WARNING: ThreadSanitizer[^\n]*",
                r"terminate called[^\n]*\n[^\n]*", r"[^\n]*Assertion[^\n]*", r"vh: case time limit exceeded"):
        m = re.search(pat, text)
        if m:
            return m.group(0).replace("\n", " ")
    return text.strip().splitlines()[-1] if text.strip() else "no output"


def known(pid):
    keys = {}
    try:
        with open(f"{VERIF}/known_findings.txt") as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == pid:
                    keys[m.group(2)] = m.group(3)
    except OSError:
        pass
    return keys


def explore(pid, spec, tier, bd, exes):
    """runs every binary of the check in shards; returns (fails, stats)"""
    fails, total = [], dict(evals=0, traces=0, transitions=0, cases=0, extra={}, samples=[])
    states, outcomes = set(), set()
    extra = ["--thorough"] if tier == "thorough" else []
    for name in spec.get("run", list(exes)):
        exe = exes[name]
        out = f"{bd}/out_{name}"
        n = spec.get("shards", JOBS)
        limit = str(spec.get("case_limit", 30 if tier == "quick" else 240))
        left = max(30, DEADLINE - time.time() - 60)
        if tier == "thorough":
            left = 6 * 3600
        with cf.ThreadPoolExecutor(n) as ex:
            rcs = list(ex.map(lambda i: run_shard(
                exe, out, ["--shard", f"{i}/{n}", "--limit", limit, *extra], left), range(n)))
        got = sorted(read_fails(out), key=lambda f: f["index"])
        # replay what was reported: an alarm that does not repeat is not raised
        confirmed, unconfirmed, cache = [], [], {}
        for f in got:
            if len(cache) < 4 and f["index"] not in cache:
                ro = f"{bd}/replay_{name}_{f['index']}"
                rc = run_shard(exe, ro, ["--only", str(f["index"]), "--limit", str(3 * int(limit)), *extra], 300)
                cache[f["index"]] = (rc, {x["key"] for x in read_fails(ro)})
            rc, keys = cache.get(f["index"], (3, {f["key"]}))
            if f["key"] in keys or rc not in (0, 3):
                confirmed.append({**f, "bin": name})
            else:
                unconfirmed.append({**f, "bin": name})
        if unconfirmed and not confirmed:
            # a failure may need what earlier cases left behind: repeat whole shards
            again = f"{bd}/again_{name}"
            with cf.ThreadPoolExecutor(n) as ex:
                list(ex.map(lambda i: run_shard(
                    exe, again, ["--shard", f"{i}/{n}", "--limit", limit, *extra], left), range(n)))
            keys = {x["key"] for x in read_fails(again)}
            confirmed = [f for f in unconfirmed if f["key"] in keys]
            if not confirmed:
                raise Broken(f"failures that repeat neither alone nor in a second run: {unconfirmed[:3]}")
        fails += confirmed
        for i, rc in enumerate(rcs):
            if rc in (0, 3) or any(f["key"].startswith("crash:") for f in fails):
                continue  # one confirmed crash is enough
            idx, desc = crash_case(out, i)
            text = tail(f"{out}/log.{i}", 6000)
            if idx < 0:  # died before the first case: run it once more
                ro = f"{bd}/replay_{name}_start{i}"
                rc2 = run_shard(exe, ro, ["--shard", f"{i}/{n}", "--limit", "240", *extra], left)
                if rc2 in (0, 3):
                    raise Broken(f"shard {i} of {name} ended with {rc} once and {rc2} again")
                fails.append(dict(index=-1, key=f"crash:{name}:startup", case="before the first case",
                                  msg=f"exit {rc}: " + summarize(text), bin=name))
                continue
            ro = f"{bd}/replay_{name}_{idx}"
            rc2 = run_shard(exe, ro, ["--only", str(idx), "--limit", str(3 * int(limit)), *extra], 300)
            if rc2 == 0:
                # not reproduced alone: maybe state carried over from earlier cases, run the shard again
                rc3 = run_shard(exe, ro + "s", ["--shard", f"{i}/{n}", "--limit", "240", *extra], left)
                if rc3 in (0, 3):
                    raise Broken(f"case {idx} ({desc}) ended with {rc} once, not again\n" + text)
            else:
                text = tail(f"{ro}/log.0", 6000) or text
            fails.append(dict(index=idx, key="crash:" + desc[:120], case=desc,
                              msg=f"{'timeout' if rc is None else 'exit %s' % rc}: " + summarize(text), bin=name))
        idxs = set()
        for f in glob.glob(f"{out}/stats.*"):
            with open(f, errors="replace") as fh:
                s = json.load(fh)
            for k in ("evals", "traces", "transitions", "cases"):
                total[k] += s[k]
            idxs.add(s["index"])
            for k, v in s["extra"].items():
                total["extra"][k] = total["extra"].get(k, 0) + v
            total["samples"] += s["samples"][:6]
        if not fails and len(idxs) > 1:
            raise Broken(f"shards disagree about the size of the space: {idxs}")
        for nm, st in (("states", states), ("outcomes", outcomes)):
            for f in glob.glob(f"{out}/{nm}.*"):
                with open(f, "rb") as fh:
                    d = fh.read()
                st.update(struct.unpack(f"<{len(d) // 8}Q", d))
    total["states"], total["outcomes"] = len(states), len(outcomes)
    return fails, total


def evidence(pid, spec, tier, total, nviol, wall):
    samples = total["samples"]
    step = max(1, len(samples) // 12)
    cov = dict(states=total["states"], transitions=total["transitions"],
               traces_validated_against_impl=total["traces"],
               cases=total["cases"], distinct_outcomes=total["outcomes"],
               rule=spec["rule"], bounds=spec.get("bounds_" + tier, spec.get("bounds", "")),
               samples=samples[::step][:12], exhaustive=True)
    if total["extra"]:
        cov["detail"] = total["extra"]
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=spec.get("level", "model_checking"),
              coverage=cov, assumptions=spec.get("assumptions", []), wall_s=round(wall, 2), violations=nviol)
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)
        f.write("\n")


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = CHECKS[pid]
    t0 = time.time()
    bd = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    try:
        if spec.get("data"):  # the shipped files plus a stand-in for the one that isn't shipped
            dd = f"{bd}/{'data' if spec['data'] is True else spec['data']}"
            shutil.copytree(f"{REPO}/data", dd)
            if not os.path.exists(f"{dd}/ucd.txt"):
                shutil.copy(f"{VERIF}/data/ucd.txt", f"{dd}/ucd.txt")
        exes = build(spec, bd)
        tb = time.time()
        fails, total = explore(pid, spec, tier, bd, exes)
        kn = known(pid)
        new, seen = [], {}
        for f in fails:
            if f["key"] in kn:
                seen[f["key"]] = f
            else:
                new.append(f)
        evidence(pid, spec, tier, total, len(new), time.time() - t0)
        for k in sorted(seen):
            log(f"KNOWN-FINDING: property={pid} {k}: {kn[k]}")
        log(f"{pid} {tier}: build {tb - t0:.1f}s, total {time.time() - t0:.1f}s, cases={total['cases']} "
            f"states={total['states']} transitions={total['transitions']} traces={total['traces']} "
            f"outcomes={total['outcomes']} {total['extra'] or ''}")
        if not new:
            if total["traces"] == 0 or total["states"] < 2:
                raise Broken("vacuous exploration")
            return 0
        new.sort(key=lambda f: (f["index"] < 0, f["index"]))
        f = new[0]
        os.makedirs(f"{VERIF}/replays", exist_ok=True)
        rp = f"{VERIF}/replays/{pid}.json"
        with open(rp, "w") as fh:
            json.dump(dict(property=pid, tier=tier, harness=spec["bins"][f["bin"]], first=f,
                           replay=f"python3 check.py {pid} {tier} (or: <harness> --only {f['index']})",
                           all=new[:50]), fh, ensure_ascii=False, indent=1)
            fh.write("\n")
        for x in new[:5]:
            log(f"  case {x['index']} [{x['case'][:300]}] key={x['key'][:120]}: {x['msg'][:600]}")
        log(f"VIOLATION property={pid} replay={rp}")
        return 1
    except Broken as e:
        log(f"{pid}: check error: {e}")
        return 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            log("kept", bd)
        else:
            shutil.rmtree(bd, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
