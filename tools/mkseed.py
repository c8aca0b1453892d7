"""Development aid: (re)build and validate the planted bugs of /verif/seeded from tools/lab/seeds.txt.

mkseed.py [ID...]: writes seeded/ID/{patch.diff,demo.sh,meta.json}; demo.py lies there already.  Validation happens in scratch copies:
the demonstration passes without and fails with the change, the stable tests pass with it, and the property's check reports it.
"""
import concurrent.futures as cf, difflib, json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from tools.mutlab import parse
DEMO = '#!/bin/bash\n# run in the repository\'s root: exit 0 when the property holds\nexec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'

def job(j):
    prop, sid, edits, meta = j
    sd = f"{ROOT}/seeded/{sid}"
    os.makedirs(sd, exist_ok=True)
    files, diff = {}, ""
    for f, old, new in edits:
        s = files.get(f) or open(f"/repo/irtorch/{f}").read()
        if s.count(old) != 1:
            return sid, f"OLD found {s.count(old)} times in {f}: {old[:50]!r}"
        files[f] = s.replace(old, new)
    for f, s in files.items():
        a = open(f"/repo/irtorch/{f}").read()
        diff += "".join(difflib.unified_diff(a.splitlines(True), s.splitlines(True), f"a/irtorch/{f}", f"b/irtorch/{f}"))
    open(sd + "/patch.diff", "w").write(diff)
    open(sd + "/demo.sh", "w").write(DEMO)
    os.chmod(sd + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": meta.get("needs", ""), "what_it_breaks": meta.get("breaks", "")}, open(sd + "/meta.json", "w"), indent=1)
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    out = []
    try:
        shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns("__pycache__", ".git"))
        env = dict(os.environ, PYTHONPATH=d + "/r", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="")
        a = subprocess.run(["bash", sd + "/demo.sh"], cwd=d + "/r", env=env, capture_output=True, text=True)
        subprocess.run(["git", "apply", "--unsafe-paths", "--directory", d + "/r", sd + "/patch.diff"], cwd="/", check=True)
        b = subprocess.run(["bash", sd + "/demo.sh"], cwd=d + "/r", env=env, capture_output=True, text=True)
        out.append(f"demo {a.returncode}/{b.returncode}")
        if a.returncode: out.append("UNPATCHED: " + (a.stdout + a.stderr)[-400:])
        if not b.returncode: out.append("NOT SEEN BY DEMO")
        else: out.append((b.stdout + b.stderr).strip().splitlines()[-1][:150])
        x = d + "/j.xml"
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "4", "--timeout=300", "-o", "junit_family=xunit2", "--junitxml=" + x, "tests"], cwd=d + "/r", env=env, capture_output=True)
        subprocess.run(["/opt/venv/bin/python", "/opt/vp/results.py", d + "/o.json", "junit:" + x], cwd=d, capture_output=True)
        try:
            o = json.load(open(d + "/o.json")); st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            miss = [t for t in st if t not in set(o["passed"])]
            out.append("tests ok" if not miss else f"TESTS FAIL {miss[:3]}")
        except Exception as e:
            out.append(f"TESTS? {e}")
        r = subprocess.run([sys.executable, ROOT + "/check.py", prop], env=dict(os.environ, SA_REPO=d + "/r", SA_EVIDENCE=d + "/ev"), capture_output=True, text=True)
        out.append(f"check rc={r.returncode} " + " ".join(l.strip() for l in r.stdout.splitlines() if l.startswith("  "))[:160])
    finally:
        shutil.rmtree(d)
    return sid, "; ".join(out)

if __name__ == "__main__":
    txt = open(ROOT + "/tools/lab/seeds.txt").read()
    metas = {}
    for m in re.finditer(r"(?m)^#### (\S+) (\S+)\n# needs: (.*)\n# breaks: (.*)\n", txt):
        metas[m.group(2)] = {"needs": m.group(3), "breaks": m.group(4)}
    only = sys.argv[1:]
    jobs = [(p, n, e, metas.get(n, {})) for p, n, e in parse(ROOT + "/tools/lab/seeds.txt") if not only or n in only]
    with cf.ThreadPoolExecutor(3) as ex:
        for sid, msg in ex.map(job, jobs):
            print(sid, "|", msg, flush=True)
