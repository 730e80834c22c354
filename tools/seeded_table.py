#!/usr/bin/env python3
"""development tool: runs the check of every seeded bug (VERIF_SEED=1, quick) against a scratch clone with the bug applied and
prints a markdown table: bug, property, family and input of the first report, number of reports."""
import glob, json, os, re, shutil, subprocess, sys, concurrent.futures as cf
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(d):
    m = json.load(open(d + "/meta.json")); i = os.path.basename(d)
    w = "/tmp/seedtab-" + i
    shutil.rmtree(w, ignore_errors=True)
    try:
        subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
        subprocess.run(["git", "-C", w, "apply", d + "/patch.diff"], check=True)
        p = subprocess.run([root + "/tools/against.sh", w, m["property"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        fams = sorted(set(re.findall(r"^VIOLATION property=\w+ replay=\S*/%s-([\w-]+)-\d+\.json" % m["property"], p.stdout, re.M)))
        n = len(re.findall(r"^VIOLATION", p.stdout, re.M))
        return "| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), ("caught by `%s`" % "`, `".join(fams)) if p.returncode == 1 and n else "**missed** (exit %d)" % p.returncode)
    finally:
        shutil.rmtree(w, ignore_errors=True)
with cf.ThreadPoolExecutor(3) as ex:
    print("| change | property | needs | result |\n|---|---|---|---|")
    for l in ex.map(run, sorted(glob.glob(root + "/seeded/*"))): print(l, flush=True)
