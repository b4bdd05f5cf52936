"""build /verif/seeded/<id> from a spec module: python3 tools/mkseed.py SPEC.py [id ...]

Each spec holds property, needs, breaks, edits [(file, old, new)], demo (python source).
The change is applied to /repo, built, tested, demonstrated and undone."""
import json, os, subprocess, sys, runpy

REPO = "/repo"
OUT = "/verif/seeded"
HEAD = "import os, sys\nsys.path.insert(0, os.getcwd())\nos.environ.setdefault('MPLBACKEND', 'Agg')\nimport warnings; warnings.simplefilter('ignore')\nimport numpy as np\n"


def sh(c):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main():
    specs = runpy.run_path(sys.argv[1])["SPECS"]
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for sid, s in specs.items():
        if len(sys.argv) > 2 and sid not in sys.argv[2:]:
            continue
        d = f"{OUT}/{sid}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/demo.py", "w").write(HEAD + s["demo"])
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        assert sh(f"git -C {REPO} status --porcelain").stdout == ""
        clean = sh(f"cd {REPO} && bash {d}/demo.sh")
        try:
            for f, a, b in s["edits"]:
                p = f"{REPO}/{f}"
                src = open(p).read()
                n = s.get("count", 1)
                assert src.count(a) >= 1, (sid, "not found", a)
                assert src.count(a) == 1 or s.get("nth") is not None, (sid, "ambiguous", a)
                if s.get("nth") is not None and src.count(a) > 1:
                    i = -1
                    for _ in range(s["nth"] + 1):
                        i = src.index(a, i + 1)
                    src = src[:i] + b + src[i + len(a):]
                else:
                    src = src.replace(a, b)
                open(p, "w").write(src)
            open(f"{d}/patch.diff", "w").write(sh(f"git -C {REPO} diff").stdout)
            sh("bash /opt/vp/build.sh")
            t = sh("bash /opt/vp/test.sh /tmp/exp/seedtest.json")
            r = json.load(open("/tmp/exp/seedtest.json"))
            lost = sorted(set(base or []) - set(r["passed"])) if base else r["failed"]
            bad = sh(f"cd {REPO} && bash {d}/demo.sh")
            chk = sh(f"cd /verif && python3 check.py {s['property']}")
        finally:
            sh(f"git -C {REPO} checkout -- .")
            sh("bash /opt/vp/build.sh")
        ok = clean.returncode == 0 and bad.returncode != 0 and not lost
        print(sid, s["property"], "OK" if ok else "REJECT", f"clean={clean.returncode} bad={bad.returncode} lost={lost[:3]} check={chk.returncode}", flush=True)
        if clean.returncode:
            print(clean.stdout[-600:])
        if not ok and bad.returncode == 0:
            print("demo did not fail:", bad.stdout[-300:])
        if chk.returncode == 1:
            print("   ", [l for l in chk.stdout.splitlines() if "VIOLATION" in l][0][:160])
        else:
            print("    MISSED:", chk.stdout.splitlines()[-1][:200] if chk.stdout else "")
        if not ok:
            sh(f"rm -rf {d}")


main()
