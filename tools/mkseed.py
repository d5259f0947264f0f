"""tools/mkseed.py SPEC.py: create /verif/seeded/<id>/ from a spec.

The spec defines SEEDS, a list of dicts: id, property, needs, breaks, edits
[(file, old, new)], demo (Rust source) or demo_sh (shell source)."""
import json, os, shutil, subprocess, sys
spec = {}
exec(open(sys.argv[1]).read(), spec)
C = "/tmp/seedcopy"
if not os.path.isdir(C): subprocess.check_call(["cp", "-a", "/repo", C])
subprocess.check_call("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", shell=True, cwd=C)
only = sys.argv[2:]
for s in spec["SEEDS"]:
    if only and s["id"] not in only: continue
    subprocess.check_call("git checkout -q -f .", shell=True, cwd=C)
    ok = True
    for f, old, new in s["edits"]:
        p = os.path.join(C, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(s["id"], "edit matches", t.count(old), "times:", old[:60]); ok = False; break
        open(p, "w").write(t.replace(old, new))
    if not ok: continue
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.check_output("git diff", shell=True, cwd=C, text=True))
    subprocess.check_call("git checkout -q -f .", shell=True, cwd=C)
    if "demo" in s:
        open(d + "/demo.rs", "w").write(s["demo"])
        shutil.copy("/verif/tools/demo_template.sh", d + "/demo.sh")
    else:
        open(d + "/demo.sh", "w").write(s["demo_sh"])
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    print("made", s["id"])
