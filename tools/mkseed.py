"""Create /verif/seeded/<id>/ from string replacements. Development tool."""
import json, os, subprocess, tempfile, shutil

DEMO = '''#!/bin/bash
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 TF_USE_LEGACY_KERAS=1 CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3
S=$(mktemp -d) || exit 99
trap 'rm -rf "$S"' EXIT
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
cd "$S" && PYTHONPATH="$R" TMPDIR="$S" HOME="$S" timeout 250 python "$D/demo.py"
'''


def mk(id_, prop, edits, demo, needs, breaks):
    """edits: list of (file, old, new)"""
    d = f"/verif/seeded/{id_}"
    w = tempfile.mkdtemp(prefix="mkseed")
    try:
        files = sorted({e[0] for e in edits})
        subprocess.check_call(["git", "-C", w, "init", "-q"])
        for f in files:
            os.makedirs(os.path.dirname(f"{w}/{f}"), exist_ok=True)
            shutil.copy(f"/repo/{f}", f"{w}/{f}")
        subprocess.check_call(["git", "-C", w, "add", "-A"])
        subprocess.check_call(["git", "-C", w, "-c", "user.name=x", "-c", "user.email=x", "commit", "-qm", "x"])
        for f, old, new in edits:
            s = open(f"{w}/{f}").read()
            assert s.count(old) == 1, (id_, f, s.count(old), old)
            open(f"{w}/{f}", "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
        assert diff
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO)
        open(d + "/demo.py", "w").write(demo)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(w)
