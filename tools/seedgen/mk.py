"""Write /verif/seeded/<id>/ from seeds*.py after confirming each (development aid)."""
import importlib.util, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VER = os.path.dirname(os.path.dirname(HERE))
sys.dont_write_bytecode = True
S = []
def seed(id, prop, needs, what, edits, demo):
    S.append((id, prop, needs, what, edits, demo))
for f in sorted(os.listdir(HERE)):
    if f.startswith("seeds"):
        sp = importlib.util.spec_from_file_location("s", os.path.join(HERE, f)); md = importlib.util.module_from_spec(sp); md.seed = seed; sp.loader.exec_module(md)
want = sys.argv[1:]
for id, prop, needs, what, edits, demo in S:
    out = os.path.join(VER, "seeded", id)
    if want and not any(w in id for w in want): continue
    if not want and os.path.exists(out + "/patch.diff"): continue
    w = "/tmp/seedwork"; shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    for file, old, new in edits:
        p = os.path.join(w, file); s = open(p, encoding="utf-8", newline="").read()
        crlf = "\r\n" in s; s = s.replace("\r\n", "\n")
        assert s.count(old) == 1, (id, file, s.count(old))
        s = s.replace(old, new)
        open(p, "w", encoding="utf-8", newline="").write(s.replace("\n", "\r\n") if crlf else s)
    diff = subprocess.run(["git", "-C", w, "diff", "--binary"], capture_output=True).stdout
    tmp = "/tmp/seedout"; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    open(tmp + "/patch.diff", "wb").write(diff)
    shutil.copy(HERE + "/h.py", tmp)
    open(tmp + "/demo.py", "w").write("from h import *\n" + demo.lstrip("\n"))
    open(tmp + "/demo.sh", "w").write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n'); os.chmod(tmp + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(tmp + "/meta.json", "w"), indent=1)
    a = subprocess.run(["bash", tmp + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    b = subprocess.run(["bash", tmp + "/demo.sh"], cwd=w, capture_output=True, text=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", PYTHONHASHSEED="0", LANG="C.UTF-8", PYTHONPATH="/opt/vp/plugin")
    got = []
    for extra in (["."], ["tests/base_data_test_samples.py::test_compare_method"]):
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "bool_results", "--timeout=120", "--rootdir=" + w] + extra, cwd=w, env=env, capture_output=True, text=True)
        got.append(r.stdout.strip().splitlines()[-1].split(" in ")[0].split(",")[0])
    ok = a.returncode == 0 and b.returncode != 0 and got == ['45 passed', '1 passed']
    chk = subprocess.run([sys.executable, "run.py", prop], cwd=VER, env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
    print(id, "OK" if ok else f"BAD {a.returncode} {a.stdout[-300:]}{a.stderr[-300:]} / {b.returncode} {got}", "|", (b.stdout or b.stderr).strip()[-160:], "| check", chk.returncode, flush=True)
    if ok:
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(tmp, out)
    shutil.rmtree(w, ignore_errors=True); shutil.rmtree(tmp, ignore_errors=True)
