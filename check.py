#!/usr/bin/env python3
"""Driver: builds what a check needs from /repo's working tree, runs it, confirms what it reports.

  check.py PROPERTY [--tier quick|thorough]     decide one property
  check.py --replay FILE                        re-run one recorded violation
  check.py --setup                              build the harnesses (warms the object cache)
Exit status: 0 held on everything explored, 1 violation, 2 the check could not run.
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from pathlib import Path

VERIF = Path(__file__).resolve().parent
REPO = Path(os.environ.get("VX_REPO", "/repo"))
BUILD = VERIF / "build"
SRC = REPO / "src/main/cpp"
sys.path.insert(0, str(VERIF))
from registry import PROPS, BINARIES, PROFILES  # noqa: E402

CPUS = os.cpu_count() or 4


class CheckError(Exception):
    pass


def cxx(profile):
    want = PROFILES[profile].get("cxx", "g++-13")
    return shutil.which(want) or shutil.which("g++") or shutil.which("clang++")


# ------------------------------------------------------------------------------------------ build
_hdr_hash = None


def headers_hash():
    """Hash of everything an object may include."""
    global _hdr_hash
    if _hdr_hash is None:
        h = hashlib.sha256()
        for root in (REPO / "include", SRC, VERIF / "src"):
            for p in sorted(root.rglob("*")):
                if p.is_file() and p.suffix in (".h", ".hpp", ".inc", ".def"):
                    h.update(str(p).encode())
                    h.update(p.read_bytes())
        _hdr_hash = h.hexdigest()
    return _hdr_hash


def lib_sources():
    out = []
    for p in sorted(SRC.rglob("*.cpp")):
        if p.name in ("main.cpp", "wasm.cpp"):
            continue
        out.append(p)
    return out


def compile_obj(src, profile, extra=()):
    p = PROFILES[profile]
    cmd = [cxx(profile), "-std=c++23", "-w", *p["flags"], *extra, "-I", str(REPO / "include"),
           "-I", str(VERIF / "src")]
    key = hashlib.sha256()
    for part in cmd:
        key.update(part.encode())
    key.update(str(src).encode())
    key.update(Path(src).read_bytes())
    key.update(headers_hash().encode())
    d = BUILD / "obj"
    d.mkdir(parents=True, exist_ok=True)
    obj = d / f"{Path(src).stem}.{profile}.{key.hexdigest()[:20]}.o"
    if not obj.exists():
        for old in d.glob(f"{Path(src).stem}.{profile}.*.o"):
            if time.time() - old.stat().st_mtime > 3600:
                old.unlink(missing_ok=True)
        tmp = obj.with_suffix(f".{os.getpid()}.tmp")
        r = subprocess.run(cmd + ["-c", str(src), "-o", str(tmp)], capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError(f"compiling {src} failed:\n{r.stderr[:1500]}")
        os.replace(tmp, obj)
    return obj


def build(name, profile):
    """Links the harness `name` against the library compiled under `profile`."""
    b = BINARIES[name]
    extra = tuple(b.get("flags", ()))
    todo = [(VERIF / "src" / s, extra) for s in b["sources"]]
    if b.get("lib", True):
        skip = set(b.get("skip_lib", ()))
        todo += [(s, tuple(b.get("lib_flags", ()))) for s in lib_sources() if s.name not in skip]
    for s in b.get("repo_sources", ()):
        todo.append((REPO / s, tuple(b.get("repo_source_flags", ()))))
    if b.get("lib_first"):
        todo.reverse()
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        objs = list(ex.map(lambda t: compile_obj(t[0], profile, t[1]), todo))
    key = hashlib.sha256(" ".join(map(str, objs)).encode()).hexdigest()[:16]
    d = BUILD / "bin"
    d.mkdir(parents=True, exist_ok=True)
    exe = d / f"{name}.{profile}.{key}"
    if not exe.exists():
        for old in d.glob(f"{name}.{profile}.*"):
            if time.time() - old.stat().st_mtime > 3600:
                old.unlink(missing_ok=True)
        tmp = exe.with_suffix(f".{os.getpid()}.tmp")
        r = subprocess.run([cxx(profile), *PROFILES[profile]["flags"], *map(str, objs), "-o", str(tmp),
                            *b.get("libs", ())], capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError(f"linking {name} failed:\n{r.stderr[-4000:]}")
        os.replace(tmp, exe)
    return exe


# -------------------------------------------------------------------------------------------- run
def alphabet(tmp):
    out = Path(tmp) / "alphabet.txt"
    r = subprocess.run([sys.executable, str(VERIF / "tools/gen_alphabet.py"), str(REPO), str(out)],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError("gen_alphabet failed: " + r.stderr[-2000:])
    return out


def job_env():
    e = dict(os.environ)
    e["VX_REPO"] = str(REPO)
    e["VX_VERIF"] = str(VERIF)
    e.setdefault("VERIF_SEED", "1")
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=0"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=1"
    e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:second_deadlock_stack=1"
    return e


def run_job(job, tier, tmp, deadline, data):
    out = Path(tmp) / f"{job['check']}.{job.get('profile', 'py')}.json"
    limit = deadline + 240
    if "script" in job:
        cmd = [sys.executable, str(VERIF / job["script"]), job["check"]]
    else:
        exe = build(job["bin"], job["profile"])
        cmd = [str(exe), job["check"]]
        if job.get("data"):
            cmd += ["--data", str(data())]
    cmd += ["--tier", tier, "--out", str(out), "--tmp", str(tmp), "--deadline", str(deadline), *job.get("args", ())]
    if tier == "thorough":
        cmd += list(job.get("thorough_args", ()))
    log = Path(tmp) / (out.stem + ".log")
    with open(log, "wb") as lf:
        try:
            r = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, timeout=limit, env=job_env(), cwd=str(tmp))
        except subprocess.TimeoutExpired:
            raise CheckError(f"{cmd[0]} {job['check']} exceeded {limit:.0f} s")
    if r.returncode not in (0, 1) or not out.exists():
        raise CheckError(f"{' '.join(cmd)} ended with {r.returncode}:\n" + log.read_text(errors="replace")[-3000:])
    return json.loads(out.read_text())


def replay_cmd(rec, path, td):
    job = rec["job"]
    if "script" in job:
        return [sys.executable, str(VERIF / job["script"]), job["check"], "--replay", str(path)]
    exe = build(job["bin"], job["profile"])
    more = ["--data", str(alphabet(td))] if job.get("data") and job["bin"] != "explore" else []
    return [str(exe), job["check"], *more, "--tier", rec.get("tier", "quick"), "--replay", *(a.replace("@FILE", str(path)) for a in rec["replay"])]


def run_replay(rec, path, quiet=True, limit=600):
    env = job_env()
    env["VX_HANG_TICKS"] = "40"  # a hang is confirmed alone, with 60 s of processor time
    with tempfile.TemporaryDirectory(prefix="vx-replay-") as td:
        try:
            r = subprocess.run(replay_cmd(rec, path, td), capture_output=quiet, text=True, errors="replace", env=env,
                               cwd=td, timeout=limit)
        except subprocess.TimeoutExpired:
            return None
    return r.returncode


def known_findings():
    f = VERIF / "known_findings.txt"
    out = []
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out.append(m.groups())
    return out


def run_property(pid, tier):
    spec = PROPS[pid]
    t0 = time.time()
    budget = 480.0 if tier == "quick" else 3 * 3600.0
    ev_dir = VERIF / "evidence"
    ev_dir.mkdir(exist_ok=True)
    rep_dir = ev_dir / "replay"
    rep_dir.mkdir(exist_ok=True)
    for old in rep_dir.glob(f"{pid}-*"):
        old.unlink()
    violations, assumptions = [], list(spec.get("assumptions", []))
    totals = dict(evaluations=0, distinct_nontrivial=0)
    extra = {}
    samples, families, capped = [], {}, False
    unconfirmed = 0
    with tempfile.TemporaryDirectory(prefix=f"vx-{pid}-", dir=os.environ.get("TMPDIR", "/tmp")) as tmp:
        cache = {}

        def data():
            if "d" not in cache:
                cache["d"] = alphabet(tmp)
            return cache["d"]

        jobs = [j for j in spec["jobs"] if tier == "thorough" or not j.get("thorough_only")]
        for n, job in enumerate(jobs):
            left = budget - (time.time() - t0)
            share = max(20.0, left / (len(jobs) - n))
            r = run_job(job, tier, tmp, share, data)
            totals["evaluations"] += r.get("evaluations", 0)
            totals["distinct_nontrivial"] += r.get("nontrivial", 0)
            for k in ("states", "transitions", "traces_validated_against_impl", "schedules", "fault_points"):
                if k in r:
                    extra[k] = extra.get(k, 0) + r[k]
            label = job["check"] + ("/" + job["profile"] if "profile" in job else "")
            families[label] = dict(r.get("families", {}))
            capped = capped or r.get("capped", False)
            samples += r.get("samples", [])[:6]
            for v in r.get("violations", []):
                if "key" not in v:
                    v["key"] = f"{v['lang']}/{v['kind']}/{v['hex']}"
                v["job"] = {k: job[k] for k in ("bin", "profile", "check", "script", "data") if k in job}
                violations.append(v)
        known = [(k, t) for p, k, t in known_findings() if p == pid]
        seen_known, reported, candidates = [], [], []
        for v in violations:
            hit = [t for k, t in known if k == v["key"]]
            if hit:
                if v["key"] not in seen_known:
                    seen_known.append(v["key"])
                    print(f"KNOWN-FINDING: property={pid} {hit[0]}")
                continue
            if len(candidates) >= 8:
                continue
            path = rep_dir / f"{pid}-{len(candidates)}.json"
            rec = {"property": pid, "job": v["job"], "kind": v.get("kind", ""), "key": v["key"],
                   "input": v.get("text", ""), "detail": v.get("detail", ""), "tier": tier}
            if "replay" in v:
                rec["replay"] = v["replay"]
            else:
                hexf = rep_dir / f"{pid}-{len(candidates)}.hex"
                hexf.write_text(v["hex"])
                rec["replay"] = [str(v["lang"]), "@" + str(hexf)]
            path.write_text(json.dumps(rec, indent=1))
            candidates.append((v, rec, path))
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            replays = list(ex.map(lambda c: 1 if c[0].get("confirmed") else run_replay(c[1], c[2], limit=150), candidates))
        for (v, rec, path), rc in zip(candidates, replays):
            if rc == 0:  # did not reproduce alone
                unconfirmed += 1
                if re.match(r"hang|timeout|exit-|crash-signal-9$", v.get("kind", "")):
                    continue  # may come from the load or the memory of the machine
                v["detail"] = v.get("detail", "") + " (only after the inputs before it)"
            if len(reported) >= 5:
                continue
            reported.append(v)
            print(f"  {v.get('kind', '')}: {v.get('text', '')[:300]} {v.get('detail', '')[:600]}")
            print(f"VIOLATION property={pid} replay={path}", flush=True)
    cov = {"evaluations": totals["evaluations"], "distinct_nontrivial": totals["distinct_nontrivial"],
           "rule": spec["rule"], "samples": samples[:12], "exhaustive": not capped, "families": families, **extra}
    if unconfirmed:
        cov["not_reproduced_alone"] = unconfirmed
    if seen_known:
        cov["known_findings_seen"] = len(seen_known)
    (ev_dir / f"{pid}.json").write_text(json.dumps({
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": spec["level"],
        "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2),
        "violations": len(reported)}, indent=1) + "\n")
    print(f"{pid}: evaluations={totals['evaluations']} nontrivial={totals['distinct_nontrivial']} "
          f"violations={len(reported)} capped={capped} wall={time.time() - t0:.1f}s")
    if not reported and capped and tier == "quick" and totals["evaluations"] == 0:
        raise CheckError("nothing was explored")
    return 1 if reported else 0


def main(argv):
    if argv and argv[0] == "--replay":
        path = Path(argv[1]).resolve()
        rec = json.loads(path.read_text())
        print(json.dumps({k: rec[k] for k in rec if k != "replay"}, indent=1))
        rc = run_replay(rec, path, quiet=False)
        print("replay exit status:", rc)
        return 0 if rc == 0 else 1
    if argv and argv[0] == "--setup":
        done = set()
        for spec in PROPS.values():
            for job in spec["jobs"]:
                if "bin" in job and not job.get("thorough_only") and (job["bin"], job["profile"]) not in done:
                    done.add((job["bin"], job["profile"]))
                    build(job["bin"], job["profile"])
        return 0
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    return run_property(pid, tier)


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except CheckError as e:
        print("check error:", e, file=sys.stderr)
        sys.exit(2)
