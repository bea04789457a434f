#!/usr/bin/env python3
"""Explores the live editor in node.  run.py editor --tier T --out FILE --tmp DIR [--deadline S]  |  run.py editor --replay FILE"""
import concurrent.futures, importlib.util, json, shutil, subprocess, sys, tempfile
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
import check  # noqa: E402
spec = importlib.util.spec_from_file_location("wasm_run", V / "wasm/run.py")
wasm_run = importlib.util.module_from_spec(spec)
spec.loader.exec_module(wasm_run)


def run(tier, tmp, deadline):
    wasm_run.build(tmp)
    shutil.copy(check.REPO / "src/main/wasm/f_i32_i32_i32_to_void.wasm", tmp)
    shutil.copy(check.REPO / "www/js/ulight.js", Path(tmp) / "ulight.mjs")
    site = check.REPO / "www"
    files = [site / "index.html", *site.glob("js/*.js"), *site.glob("css/*.css")]
    (Path(tmp) / "www.json").write_text(json.dumps({str(f.relative_to(site)): f.read_text() for f in files}))
    # The engine keeps the modules of every page ever loaded, so the work is cut into more processes than run at once.
    n = check.CPUS * (12 if tier == "thorough" else 1)

    def one(k):
        out = Path(tmp) / f"node.{k}.json"
        out.unlink(missing_ok=True)
        try:
            r = subprocess.run(["node", "--no-warnings", "--experimental-vm-modules", str(V / "editor/explore.mjs"), str(tmp), str(k), str(n), tier, str(out)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=deadline + 120)
        except subprocess.TimeoutExpired:
            return out, None, ""
        return out, r.returncode, r.stdout
    with concurrent.futures.ThreadPoolExecutor(check.CPUS) as ex:
        done = list(ex.map(one, range(n)))
    total = dict(evaluations=0, nontrivial=0, transitions=0, families={}, samples=[], violations=[], capped=False)
    seen = set()
    for out, code, log in done:
        if code is None:
            total["violations"].append(dict(key="hang", kind="hang", text="", detail="the editor does not return", replay=["editor"]))
            continue
        if code or not out.exists():
            total["violations"].append(dict(key="dead", kind="dead", text="", detail=f"the process ended with {code}: {log[-400:]}", replay=["editor"]))
            continue
        r = json.loads(out.read_text())
        for k in ("evaluations", "nontrivial", "transitions"):
            total[k] += r[k]
        for k, v in r["families"].items():
            total["families"][k] = total["families"].get(k, 0) + v
        total["samples"] += r["samples"][:2]
        for v in r["violations"]:
            key = check.re.sub(r"[^!-~]", "_", v["kind"] + "/" + v["text"])[:300]
            if key not in seen and sum(1 for s in seen if s.startswith(v["kind"] + "/")) < 3:
                seen.add(key)
                total["violations"].append(dict(key=key, kind=v["kind"], text=v["text"], detail=v["detail"], replay=["editor"]))
    return total


def main(argv):
    opt = {argv[k]: argv[k + 1] for k in range(1, len(argv) - 1) if argv[k].startswith("--")}
    if "--replay" in opt:
        rec = json.loads(Path(opt["--replay"]).read_text())
        with tempfile.TemporaryDirectory(prefix="vx-editor-") as tmp:
            r = run(rec.get("tier", "quick"), tmp, 400)
        hits = [v for v in r["violations"] if v["kind"] == rec["kind"]]
        for v in hits:
            print(v["kind"], v["text"], v["detail"])
        return 1 if hits else 0
    r = run(opt.get("--tier", "quick"), opt["--tmp"], float(opt.get("--deadline", "600")))
    Path(opt["--out"]).write_text(json.dumps(r))
    for v in r["violations"]:
        print(v["kind"], v["text"], v["detail"])
    print(r["evaluations"], len(r["violations"]))
    return 1 if r["violations"] else 0


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except check.CheckError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
