"""plant.py BUGFILE...: confirms a planted bug in a scratch copy of /repo and stores it under /verif/seeded.

A bug file defines ID, PROP, EDITS [(file, old, new)], DEMO (python source), NEEDS, BREAKS.
"""
import json, os, shutil, subprocess, sys, runpy
for bf in sys.argv[1:]:
    b = runpy.run_path(bf)
    cp = f"/tmp/pl_{b['ID']}"
    shutil.rmtree(cp, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", cp], check=True)
    for f, old, new in b["EDITS"]:
        s = open(f"{cp}/{f}").read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(f"{cp}/{f}", "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", cp, "diff"], capture_output=True, text=True).stdout
    d = f"/tmp/bugs/out_{b['ID']}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.py", "w").write(b["DEMO"])
    jit = ""
    open(f"{d}/demo.sh", "w").write(
        '#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\n'
        f'{jit}PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$D/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": b["PROP"], "needs": b["NEEDS"], "what_it_breaks": b["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    r0 = subprocess.run(["bash", f"{d}/demo.sh"], cwd="/repo", capture_output=True, text=True)
    r1 = subprocess.run(["bash", f"{d}/demo.sh"], cwd=cp, capture_output=True, text=True)
    print(b["ID"], "demo unchanged:", r0.returncode, "patched:", r1.returncode, (r1.stdout + r1.stderr)[-200:].replace("\n", " | "), flush=True)
    if r0.returncode != 0:
        print(r0.stdout[-500:], r0.stderr[-1500:])
    ok = r0.returncode == 0 and r1.returncode != 0
    if ok:
        env = dict(os.environ, PATH="/opt/venv/bin:" + os.environ["PATH"], PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
        rep = f"{d}.xml"
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-o", "junit_family=xunit2", f"--junitxml={rep}"],
                       cwd=cp, env=env, capture_output=True)
        subprocess.run(["/opt/venv/bin/python", "/opt/vp/results.py", f"{d}.json", f"junit:{rep}"], cwd=cp)
        res = json.load(open(f"{d}.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        def names(o, key):
            return set(o[key]) if isinstance(o, dict) and key in o else set()
        missing = set(base["stable"]) - names(res, "passed")
        print(b["ID"], "tests not passing:", sorted(missing)[:5], len(names(res, "passed")), flush=True)
        if not missing:
            dst = f"/verif/seeded/{b['ID']}"
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
            print(b["ID"], "KEPT", flush=True)
    shutil.rmtree(cp)
