#!/usr/bin/env python3
"""Explores the theme compiler in node.  run.py themes --tier T --out FILE --tmp DIR [--deadline S]  |  run.py themes --replay FILE"""
import json, subprocess, sys, tempfile
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
import check  # noqa: E402


def run(tier, tmp, deadline):
    exe = check.build("types", "rel")
    types = Path(tmp) / "types.txt"
    types.write_text(subprocess.run([str(exe)], capture_output=True, text=True, check=True).stdout)
    n = check.CPUS
    procs = []
    for k in range(n):
        out = Path(tmp) / f"node.{k}.json"
        procs.append((out, subprocess.Popen(["node", str(V / "theme/explore.cjs"), str(check.REPO / "scripts/theme-to-css.cjs"), str(types), str(check.REPO / "themes"),
                                             str(check.REPO / "www/css/theme.css"), str(tmp), str(k), str(n), tier, str(out)],
                                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")))
    total = dict(evaluations=0, nontrivial=0, transitions=0, families={}, samples=[], violations=[], capped=False)
    seen = set()
    for out, p in procs:
        try:
            log, _ = p.communicate(timeout=deadline + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            total["violations"].append(dict(key="hang", kind="hang", text="", detail="the script does not return", replay=["themes"]))
            continue
        if p.returncode or not out.exists():
            total["violations"].append(dict(key="dead", kind="dead", text="", detail=f"the process ended with {p.returncode}: {log[-400:]}", replay=["themes"]))
            continue
        r = json.loads(out.read_text())
        for k in ("evaluations", "nontrivial"):
            total[k] += r[k]
        for k, v in r["families"].items():
            total["families"][k] = total["families"].get(k, 0) + v
        total["samples"] += r["samples"][:2]
        for v in r["violations"]:
            key = check.re.sub(r"[^!-~]", "_", v["kind"] + "/" + v["text"])[:300]
            if key not in seen and sum(1 for s in seen if s.startswith(v["kind"] + "/")) < 3:
                seen.add(key)
                total["violations"].append(dict(key=key, kind=v["kind"], text=v["text"], detail=v["detail"], replay=["themes"]))
    return total


def main(argv):
    opt = {argv[k]: argv[k + 1] for k in range(1, len(argv) - 1) if argv[k].startswith("--")}
    if "--replay" in opt:
        rec = json.loads(Path(opt["--replay"]).read_text())
        with tempfile.TemporaryDirectory(prefix="vx-theme-") as tmp:
            r = run(rec.get("tier", "quick"), tmp, 400)
        hits = [v for v in r["violations"] if v["kind"] == rec["kind"]]
        for v in hits:
            print(v["kind"], v["text"], v["detail"])
        return 1 if hits else 0
    r = run(opt.get("--tier", "quick"), opt["--tmp"], float(opt.get("--deadline", "600")))
    Path(opt["--out"]).write_text(json.dumps(r))
    for v in r["violations"]:
        print(v["kind"], v["text"], v["detail"])
    print(r["evaluations"], len(r["violations"]))
    return 1 if r["violations"] else 0


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except check.CheckError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
