"""Runs the check of its property against each planted bug (named ones, or all): trybugs.py [id...]"""
import glob, json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.path.basename(p) for p in glob.glob(ROOT + "/seeded/*"))
for i in ids:
    d = f"{ROOT}/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    if subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"]).returncode:
        print(i, "does not apply")
        continue
    t = time.time()
    try:
        r = subprocess.run([ROOT + "/check", prop], cwd=ROOT, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    caught = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
    print(i, prop, "caught" if caught else f"MISSED (exit {r.returncode})", f"{time.time() - t:.0f}s", flush=True)
    last = [l for l in r.stdout.splitlines() if "rejected" in l]
    print("    ", (last[0] if last else r.stdout[-400:])[:300], flush=True)
