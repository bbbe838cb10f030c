"""Behaviour-preserving rewrites, applied set by set to a scratch copy; every check has to stay quiet.

    python3 tools/refactors.py [SET ...] [--checks=C01,C02] [--no-tests]

Development aid: no registered check reads this file."""
import os, shutil, subprocess, sys, time, importlib.util

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SETS = {}


def r(group, file, old, new, count=1):
    SETS.setdefault(group, []).append((file, old, new, count))


def whole(group, file, text):
    SETS.setdefault(group, []).append((file, None, text, 1))


def load(path):
    sp = importlib.util.spec_from_file_location("rset", path)
    md = importlib.util.module_from_spec(sp)
    md.r, md.whole = r, whole
    sp.loader.exec_module(md)


def main():
    for f in sorted(os.listdir(os.path.join(HERE, "tools"))):
        if f.startswith("rset_"):
            load(os.path.join(HERE, "tools", f))
    names = [a for a in sys.argv[1:] if not a.startswith("-")] or list(SETS)
    checks = [f"C{i:02d}" for i in range(1, 29)] + ["C31", "C32", "C33", "C34"]
    for a in sys.argv:
        if a.startswith("--checks="):
            checks = a[9:].split(",")
    for g in names:
        dst = f"/tmp/ref.{os.getpid()}"
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree("/repo", dst, ignore=shutil.ignore_patterns(".git"))
        for file, old, new, count in SETS[g]:
            p = os.path.join(dst, file)
            s = open(p, encoding="utf-8", newline="").read()
            crlf = "\r\n" in s
            s = s.replace("\r\n", "\n")
            if old is None:
                s = new
            else:
                if s.count(old) != count:
                    print(f"{g}: {file}: {s.count(old)} matches of {old[:60]!r}")
                    return
                s = s.replace(old, new)
            open(p, "w", encoding="utf-8", newline="").write(s.replace("\n", "\r\n") if crlf else s)
        if "--keep" in sys.argv:
            print(dst)
            return
        if "--no-tests" not in sys.argv:
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", PYTHONHASHSEED="0", LANG="C.UTF-8", PYTHONPATH="/opt/vp/plugin")
            for extra in (["."], ["tests/base_data_test_samples.py::test_compare_method"]):
                q = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "bool_results", "--timeout=120", "--rootdir=" + dst] + extra, cwd=dst, env=env, capture_output=True, text=True)
                last = q.stdout.strip().splitlines()[-1]
                if "failed" in last or "error" in last:
                    print(g, "TESTS", last, q.stdout[-1500:])
        t = time.time()
        bad = 0
        for c in checks:
            q = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), c, "--tier", "quick"], env=dict(os.environ, VERIF_REPO=dst), capture_output=True, text=True, cwd=HERE)
            und = [l for l in q.stdout.splitlines() if l.startswith("UNDECIDED")]
            if q.returncode or und:
                bad += 1
                print(f"  {g} {c}: exit {q.returncode} undecided={len(und)}")
                for l in [l for l in q.stdout.splitlines() if not l.startswith("C")][:4] + q.stderr.splitlines()[-3:]:
                    print("      " + l[:260], flush=True)
        print(f"{g}: {len(checks) - bad} of {len(checks)} quiet, {time.time() - t:.0f}s", flush=True)
        shutil.rmtree(dst, ignore_errors=True)


if __name__ == "__main__":
    main()
