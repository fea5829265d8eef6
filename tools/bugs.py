"""bugs.py [--all] [id..]: development helper. Applies each planted change to /repo, runs the check of its
property (--all: every check), undoes the change and reports who noticed."""
import glob, json, os, subprocess, sys, time
args = sys.argv[1:]
every = "--all" in args
ids = [a for a in args if a != "--all"] or sorted(os.path.basename(p) for p in glob.glob("/verif/seeded/*"))
checks = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
for i in ids:
    d = f"/verif/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        out = []
        for c in checks if every else [prop]:
            t = time.time()
            p = subprocess.run(["bash", "/verif/check.sh", c, "quick"], capture_output=True, text=True)
            hit = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION property=" + c)]
            if p.returncode == 1 and hit: out.append(f"{c} caught {len(hit)} ({time.time() - t:.0f} s)")
            elif p.returncode: out.append(f"{c} rc {p.returncode} {p.stderr[-300:]}")
            elif not every: out.append(f"{c} MISSED ({time.time() - t:.0f} s)")
        print(i, "|", "; ".join(out), flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
