"""Plant single edits in scratch copies of /repo and run a property's check on each.

    python3 tools/mutants.py [NAME-SUBSTRING|PROP ...] [--all-checks]

Development aid: no registered check reads this file."""
import os, shutil, subprocess, sys, time, importlib.util

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
M = []
BASE = ['45 passed', '1 passed']


def m(prop, name, file, old, new, count=1, more=()):
    M.append((prop, name, [(file, old, new, count)] + list(more)))


def load(path):
    sp = importlib.util.spec_from_file_location("mset", path)
    md = importlib.util.module_from_spec(sp)
    md.m = m
    sp.loader.exec_module(md)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    for f in sorted(os.listdir(os.path.join(HERE, "tools"))):
        if f.startswith("mset_") and all(a[6:] in f for a in sys.argv if a.startswith("--set=")):
            load(os.path.join(HERE, "tools", f))
    todo = [x for x in M if not args or any(a == x[0] or a in x[1] for a in args)]
    dst = f"/tmp/mut.{os.getpid()}"
    for prop, name, edits in todo:
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(REPO, dst, ignore=shutil.ignore_patterns(".git"))
        bad = None
        for file, old, new, count in edits:
            p = os.path.join(dst, file)
            s = open(p, encoding="utf-8", newline="").read()
            crlf = "\r\n" in s
            s = s.replace("\r\n", "\n")
            if s.count(old) != count:
                bad = f"{file}: {s.count(old)} matches"
                break
            s = s.replace(old, new)
            open(p, "w", encoding="utf-8", newline="").write(s.replace("\n", "\r\n") if crlf else s)
        if bad:
            print(f"{prop} {name}: BADEDIT {bad}", flush=True)
            continue
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", PYTHONHASHSEED="0", LANG="C.UTF-8", PYTHONPATH="/opt/vp/plugin")
        if "--no-tests" not in sys.argv:
            got = []
            for extra in (["."], ["tests/base_data_test_samples.py::test_compare_method"]):
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "bool_results", "--timeout=120", "--rootdir=" + dst] + extra, cwd=dst, env=env, capture_output=True, text=True)
                got.append(r.stdout.strip().splitlines()[-1].split(" in ")[0].split(",")[0])
            tests = "" if got == BASE or not BASE else "TESTS " + str(got)
            if not BASE:
                print("baseline", got)
        else:
            tests = ""
        props = [prop] if "--all-checks" not in sys.argv else [f"C{i:02d}" for i in range(1, 29)]
        res = []
        for pr in props:
            t = time.time()
            r = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), pr, "--tier", "quick"], env=dict(os.environ, VERIF_REPO=dst), capture_output=True, text=True, cwd=HERE)
            und = [l for l in r.stdout.splitlines() if l.startswith("UNDECIDED")]
            vio = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res.append(f"{pr}:{'CAUGHT' if r.returncode == 1 and vio else 'exit%d' % r.returncode}{' undecided=%d' % len(und) if und else ''} {time.time() - t:.0f}s")
            if und and "-v" in sys.argv:
                res += ["\n    " + u[:300] for u in und]
        print(f"{prop} {name}: {tests} {' '.join(res)}", flush=True)
    shutil.rmtree(dst, ignore_errors=True)


if __name__ == "__main__":
    main()
