#!/usr/bin/env python3
"""Builds the library for WebAssembly, and explores the JavaScript wrapper over it in node.
   run.py wrapper --tier T --out FILE --tmp DIR [--deadline S]  |  run.py wrapper --replay FILE"""
import concurrent.futures, hashlib, json, os, shutil, subprocess, sys, tempfile
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
import check  # noqa: E402

FLAGS = ["--target=wasm32-unknown-unknown", "-std=c++23", "-O1", "-DNDEBUG", "-w", "-fno-exceptions", "-fsized-deallocation",
         "-U__cpp_concepts", "-D__cpp_concepts=202002", "-D__regparm__(x)="]


def system_includes():
    r = subprocess.run(["g++", "-E", "-x", "c++", "-v", "/dev/null"], capture_output=True, text=True)
    lines = r.stderr.splitlines()
    start = next(k for k, l in enumerate(lines) if l.startswith("#include <...>"))
    dirs = []
    for l in lines[start + 1:]:
        if not l.startswith(" "):
            break
        if "/lib/gcc/" not in l:
            dirs += ["-isystem", l.strip()]
    return dirs


def build(tmp):
    inc = ["-I", str(V / "wasm/stub"), "-I", str(check.REPO / "include"), *system_includes()]
    cache = check.BUILD / "obj"
    cache.mkdir(parents=True, exist_ok=True)

    def one(t):
        src, extra = t
        cmd = ["clang++", *FLAGS, *extra, *inc]
        key = hashlib.sha256("\0".join(cmd).encode() + str(src).encode() + src.read_bytes() + check.headers_hash().encode())
        obj = cache / f"{src.stem}.wasm.{key.hexdigest()[:20]}.o"
        if not obj.exists():
            part = obj.with_suffix(f".{os.getpid()}.tmp")
            r = subprocess.run([*cmd, "-c", str(src), "-o", str(part)], capture_output=True, text=True)
            if r.returncode:
                raise check.CheckError(f"compiling {src} for WebAssembly failed:\n{r.stderr[:2000]}")
            os.replace(part, obj)
        return obj
    todo = [(V / "wasm/rt.cpp", ["-fno-builtin"])]
    todo += [(V / "wasm/rt2.cpp", [])]
    todo += [(s, []) for s in check.lib_sources() if s.name != "io.cpp"]
    wasm = check.SRC / "wasm.cpp"
    if wasm.exists():
        todo.append((wasm, []))
    with concurrent.futures.ThreadPoolExecutor(check.CPUS) as ex:
        objs = list(ex.map(one, todo))
    ld = shutil.which("wasm-ld") or shutil.which("wasm-ld-18") or "/usr/lib/llvm-18/bin/wasm-ld"
    r = subprocess.run([ld, "--no-entry", "--export-all", "--export-table", "--growable-table", "-z", "stack-size=4194304",
                        "--allow-undefined", *map(str, objs), "-o", str(Path(tmp) / "ulight.wasm")], capture_output=True, text=True)
    if r.returncode:
        raise check.CheckError(f"linking for WebAssembly failed:\n{r.stderr[:2000]}")


def run(tier, tmp, deadline):
    build(tmp)
    shutil.copy(check.REPO / "src/main/wasm/f_i32_i32_i32_to_void.wasm", tmp)
    shutil.copy(check.REPO / "www/js/ulight.js", Path(tmp) / "ulight.mjs")
    exe = check.build("wasmgen", "rel")
    n = check.CPUS
    r = subprocess.run([str(exe), "--data", str(check.alphabet(tmp)), "--dir", str(tmp), "--tier", tier, "--shards", str(n)], capture_output=True, text=True)
    if r.returncode:
        raise check.CheckError(f"wasmgen failed ({r.returncode}): {r.stderr[-2000:]}")
    procs = []
    for k in range(n):
        out = Path(tmp) / f"node.{k}.json"
        procs.append((out, subprocess.Popen(["node", "--stack-size=4000", str(V / "wasm/explore.mjs"), str(tmp), str(k), str(n), tier, str(out)],
                                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")))
    total = dict(evaluations=0, nontrivial=0, transitions=0, traces_validated_against_impl=0, families={}, samples=[], violations=[], capped=False)
    seen = set()
    for out, p in procs:
        try:
            log, _ = p.communicate(timeout=deadline + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            total["violations"].append(dict(key="hang", kind="hang", text="", detail="the wrapper does not return", replay=["wrapper"]))
            continue
        if p.returncode or not out.exists():
            # Nothing but the wrapper's module runs in that process before it reports.
            total["violations"].append(dict(key="dead", kind="dead", text="", detail=f"the process ended with {p.returncode}: {log[-400:]}", replay=["wrapper"]))
            continue
        r = json.loads(out.read_text())
        if r["missing"]:
            raise check.CheckError(f"the library uses functions that the runtime for WebAssembly does not have: {r['missing']}")
        for k, name in (("evaluations", "evaluations"), ("nontrivial", "nontrivial"), ("transitions", "transitions"), ("traces", "traces_validated_against_impl")):
            total[name] += r[k]
        for k, v in r["families"].items():
            total["families"][k] = total["families"].get(k, 0) + v
        total["samples"] += r["samples"][:2]
        for v in r["violations"]:
            key = check.re.sub(r"[^!-~]", "_", v["kind"] + "/" + v["text"])[:300]
            if key not in seen and sum(1 for s in seen if s.startswith(v["kind"] + "/")) < 3:
                seen.add(key)
                total["violations"].append(dict(key=key, kind=v["kind"], text=v["text"], detail=v["detail"], replay=["wrapper"]))
    return total


def main(argv):
    opt = {argv[k]: argv[k + 1] for k in range(1, len(argv) - 1) if argv[k].startswith("--")}
    if "--replay" in opt:
        rec = json.loads(Path(opt["--replay"]).read_text())
        with tempfile.TemporaryDirectory(prefix="vx-wasm-") as tmp:
            r = run(rec.get("tier", "quick"), tmp, 400)
        hits = [v for v in r["violations"] if v["kind"] == rec["kind"]]
        for v in hits:
            print(v["kind"], v["text"], v["detail"])
        return 1 if hits else 0
    r = run(opt.get("--tier", "quick"), opt["--tmp"], float(opt.get("--deadline", "600")))
    Path(opt["--out"]).write_text(json.dumps(r))
    for v in r["violations"]:
        print(v["kind"], v["text"], v["detail"])
    print(r["evaluations"], len(r["violations"]))
    return 1 if r["violations"] else 0


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except check.CheckError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
