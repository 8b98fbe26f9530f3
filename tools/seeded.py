#!/usr/bin/env python3
"""Applies each planted bug in turn and runs the quick check of its property. tools/seeded.py [id...]"""
import json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ids = sys.argv[1:] or sorted(os.listdir(f"{HERE}/seeded"))
    if subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip():
        sys.exit("/repo is not clean")
    table = []
    for i in ids:
        meta = json.load(open(f"{HERE}/seeded/{i}/meta.json"))
        prop = os.environ.get("PROP") or meta["property"]
        if subprocess.run(["git", "-C", "/repo", "apply", f"{HERE}/seeded/{i}/patch.diff"]).returncode:
            print(f"{i}: DOES NOT APPLY", flush=True)
            continue
        try:
            t = time.time()
            r = subprocess.run([sys.executable, "check.py", prop, "quick"], cwd=HERE, capture_output=True, text=True)
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        what = "caught" if r.returncode == 1 and any(f"property={prop} " in l for l in v) else f"MISSED (rc {r.returncode})"
        table.append(f"| {i} | {meta['needs']} | {prop}: {what} |")
        print(f"{i}: {what} by {prop} in {time.time() - t:.0f} s", flush=True)
        if what != "caught" or os.environ.get("VERBOSE"):
            print("    " + "\n    ".join((r.stdout + r.stderr).strip().splitlines()[-6:]), flush=True)
    if not sys.argv[1:]:
        d = open(f"{HERE}/DESIGN.md").read()
        a, b = d.index("<!-- planted -->"), d.index("<!-- end -->")
        rows = ["<!-- planted -->", "| planted change | what it needs | quick check |", "|---|---|---|"] + table
        open(f"{HERE}/DESIGN.md", "w").write(d[:a] + "\n".join(rows) + "\n" + d[b:])


main()
