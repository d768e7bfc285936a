"""Make and try one planted bug.

  mkseed.py SPEC.py [--check]       SPEC.py defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python source)

Writes seeded/<ID>/{patch.diff,demo.sh,demo.py,meta.json}, and runs the demonstration with and without the change in a
scratch copy of /repo. With --tests ARGS the given pytest arguments are run in the changed copy too; with --check the
property's quick check is run on the changed copy."""
import json, os, pathlib, shutil, subprocess, sys, tempfile
V = pathlib.Path(__file__).resolve().parent.parent
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds; non-zero: it does not
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD"
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
export PYTENSOR_FLAGS="cxx=,base_compiledir=$scratch/ptc" VP_SCRATCH="$scratch"
timeout 280 /opt/venv/bin/python "$here/demo.py"
'''
def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)
def main():
    spec = {}
    exec(pathlib.Path(sys.argv[1]).read_text(), spec)
    out = V / "seeded" / spec["ID"]
    out.mkdir(parents=True, exist_ok=True)
    (out / "demo.py").write_text(spec["DEMO"].lstrip())
    (out / "demo.sh").write_text(DEMO_SH)
    os.chmod(out / "demo.sh", 0o755)
    (out / "meta.json").write_text(json.dumps({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, indent=1) + "\n")
    scratch = pathlib.Path(tempfile.mkdtemp(prefix="seed_", dir="/tmp"))
    repo = scratch / "repo"
    try:
        subprocess.run(["cp", "-a", os.environ.get("SEED_SRC", "/repo"), str(repo)], check=True)
        r0 = sh("bash", str(out / "demo.sh"), cwd=repo)
        print("demo clean:", r0.returncode, (r0.stdout + r0.stderr)[-600:] if r0.returncode else "")
        for f, old, new in spec["EDITS"]:
            p = repo / f
            s = p.read_text()
            assert s.count(old) == 1, (f, s.count(old), old)
            blame = sh("git", "blame", "-s", f, cwd=repo).stdout.splitlines()
            first = s[: s.index(old)].count("\n")
            for line in blame[first: first + old.count("\n") + 1]:
                if "ca91cf2" not in line[:10]:
                    print("  NOT ORIGINAL:", line[:140])
            p.write_text(s.replace(old, new))
        d = sh("git", "diff", cwd=repo).stdout
        (out / "patch.diff").write_text(d)
        r1 = sh("bash", str(out / "demo.sh"), cwd=repo)
        print("demo patched:", r1.returncode, (r1.stdout + r1.stderr)[-500:])
        if "--check" in sys.argv:
            for seed in ("1", "2", "3"):
                r = sh("./check", spec["PROP"], cwd=V, env=dict(os.environ, VERIF_SEED=seed, VERIF_REPO=str(repo)))
                print(f"check, seed {seed}:", r.returncode, r.stdout[-500:])
        if "--tests" in sys.argv:
            args = sys.argv[sys.argv.index("--tests") + 1].split()
            env = dict(os.environ, PATH="/opt/vp/aux/bin:/opt/venv/bin:/usr/bin:/bin", JAX_PLATFORMS="cpu", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                       PYTENSOR_FLAGS=f"gcc__cxxflags=-march=x86-64,base_compiledir={scratch}/c", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
            r = sh("python", "-m", "pytest", "-q", "-n", "8", "-p", "no:cacheprovider", *args, cwd=repo, env=env)
            print("tests:", "\n".join(r.stdout.splitlines()[-6:])[-900:])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
main()
