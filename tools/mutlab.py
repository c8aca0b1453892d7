"""Development aid: apply one textual change to a scratch copy of the library and run checks on it.

mutlab.py bugs FILE [PROP...]      every entry of FILE must be caught by its property's check
mutlab.py neutral FILE [PROP...]   no check may raise an alarm on any entry of FILE
Entries: blocks separated by lines of '#### PROP name' with 'FILE path' and OLD/NEW parts separated by '----' and '===='.
"""
import concurrent.futures as cf, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

def parse(fn):
    out = []
    for blk in re.split(r"(?m)^#### ", open(fn).read())[1:]:
        head, body = blk.split("\n", 1)
        prop, name = head.split(None, 1)
        edits = []
        for m in re.split(r"(?m)^FILE ", body)[1:]:
            f, rest = m.split("\n", 1)
            for e in re.split(r"(?m)^\+\+\+\+\n", rest):
                old, new = re.split(r"(?m)^====\n", e, maxsplit=1)
                edits.append((f.strip(), old.rstrip("\n"), new.rstrip("\n")))
        out.append((prop, name.strip(), edits))
    return out

def run(job):
    prop, name, edits, checks = job
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        shutil.copytree("/repo/irtorch", d + "/irtorch", ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in edits:
            p = f"{d}/irtorch/{f}"
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                return prop, name, None, f"OLD text found {n} times in {f}: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        for f in {f for f, _, _ in edits}:
            try:
                compile(open(f"{d}/irtorch/{f}").read(), f, "exec")
            except SyntaxError as e:
                return prop, name, None, f"syntax error {e}"
        res = []
        for c in checks or [prop]:
            r = subprocess.run([sys.executable, ROOT + "/check.py", c], env=dict(os.environ, SA_REPO=d, SA_EVIDENCE=d + "/ev"), capture_output=True, text=True)
            if os.environ.get("LAB_UND"):
                import json
                v = json.load(open(f"{d}/ev/{c}.json"))["coverage"]
                print("UND ", name, c, "obligations", v["obligations"], "undecided", len(v["undecided"]), [x[:200] for x in v["undecided"][:3]])
            res.append((c, r.returncode, [l for l in r.stdout.splitlines() if l.startswith("  ")][:4] if r.returncode == 1 else (r.stdout + r.stderr).splitlines()[-3:] if r.returncode else []))
        return prop, name, res, ""
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    mode, fn, only = sys.argv[1], sys.argv[2], sys.argv[3:]
    from sa.claims import CLAIMS
    jobs = []
    for prop, name, edits in parse(fn):
        if mode == "bugs":
            if only and prop not in only and name not in only:
                continue
            jobs.append((prop, name, edits, [prop]))
        else:
            jobs.append((prop, name, edits, [c for c in CLAIMS if not only or c in only]))
    bad = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for prop, name, res, err in ex.map(run, jobs):
            if res is None:
                print("BROKEN", prop, name, err); bad += 1; continue
            for c, rc, out in res:
                good = rc == 1 if mode == "bugs" else rc == 0
                if not good:
                    bad += 1
                if mode == "bugs" or not good:
                    print(("ok   " if good else "MISS " if mode == "bugs" else "ALARM"), prop, name, c, f"rc={rc}", (out[:2] if good else out))
    print("not as wanted:", bad, "of", len(jobs))
