"""Development aid for planted bugs (never used by a check).

    seed.py new ID PROPERTY FILE <<'X'   (old text, line '=====', new text) -> patch.diff
    seed.py demo ID          run demo.sh against /repo and against a patched copy
    seed.py check ID [tier]  run the property's check on the patched copy
    seed.py tests ID...      run the stable tests on a copy with all these patches applied
"""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, os.environ.get("BUGS", "seeded"))  # (or tools/more_bugs)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, **kw)


def copy(tag):
    d = f"/tmp/seed/{tag}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/seed", exist_ok=True)
    sh(f"cp -a /repo {d}", check=True)
    sh(f"git -C {d} checkout -q -- .")
    return d


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "new":
        id, prop, *files = args
        d = copy("new-" + id)
        for block in sys.stdin.read().split("\n#####\n"):
            f = files[0]
            if block.startswith("FILE "):
                line, block = block.split("\n", 1)
                f = line[5:].strip()
            old, new = block.split("\n=====\n")
            old, new = old.strip("\n"), new.strip("\n")
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, (s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        os.makedirs(os.path.join(S, id), exist_ok=True)
        diff = sh(f"git -C {d} diff", capture_output=True).stdout
        open(os.path.join(S, id, "patch.diff"), "w").write(diff)
        shutil.rmtree(d)
        print(diff)
    elif cmd in ("demo", "check"):
        id = args[0]
        d = copy(cmd + "-" + id)
        sh(f"git -C {d} apply {S}/{id}/patch.diff", check=True)
        # the sandbox's package is an editable install of /repo; PYTHONPATH goes first
        env = dict(os.environ, PYTHONPATH=d)
        if cmd == "demo":
            a = sh(f"bash {S}/{id}/demo.sh", cwd="/repo", capture_output=True)
            b = sh(f"bash {S}/{id}/demo.sh", cwd=d, env=env, capture_output=True)
            print(id, "clean:", a.returncode, "patched:", b.returncode, "OK" if a.returncode == 0 and b.returncode else "BAD")
            if a.returncode or not b.returncode or "AssertionError" not in b.stderr:
                print(a.stdout[-600:], a.stderr[-600:], b.stdout[-600:], b.stderr[-800:])
        else:
            prop = json.load(open(f"{S}/{id}/meta.json"))["property"]
            props = args[1:] or [prop]
            for prop in props:
                r = sh(f"cd {V} && PYTHONPATH={d} PYTHONHASHSEED=0 /opt/venv/bin/python -W ignore -m mc.run {prop} quick --only ''", capture_output=True)
                print(id, prop, "CAUGHT" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "ERROR", [l[:300] for l in r.stdout.splitlines() if l.startswith("  ")][:2], r.stdout.splitlines()[:1], flush=True)
        shutil.rmtree(d)
    elif cmd == "tests":
        d = copy("tests-" + args[0])
        for id in args:
            sh(f"git -C {d} apply {S}/{id}/patch.diff", check=True)
        t = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {d}").replace("unset PYTHONPATH", f"export PYTHONPATH={d}")
        open(f"{d}/_t.sh", "w").write(t)
        sh(f"bash {d}/_t.sh {d}/out.json > {d}/log 2>&1")
        base = json.load(open("/opt/vp/BASELINE.json"))
        out = json.load(open(f"{d}/out.json"))
        key = [k for k in base if isinstance(base[k], list) and len(base[k]) > 600][0]
        ok = set(out.get("passed", []))
        bad = sorted(set(base[key]) - ok)
        print(args, "broken stable tests:", len(bad), bad[:30])
        shutil.rmtree(d)


main()
