"""tools/mutate.py SPEC.py [id...]: run checks against small changes of /repo.

The spec defines M, a list of (id, properties, [(file, old, new)...]). Each is
applied to /repo's working tree, the checks are run, and the tree restored. A
scratch copy tells whether the repository's stable tests notice the change.
With no properties given, all checks have to stay quiet."""
import os, re, subprocess, sys, json, threading
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
F = {"BI": "body-image/src/lib.rs", "BA": "barc/src/lib.rs", "CO": "barc/src/compress.rs",
     "ST": "body-image-futio/src/stream.rs", "SI": "body-image-futio/src/sink.rs",
     "DE": "body-image-futio/src/decode.rs", "UB": "body-image-futio/src/uni_body_buf.rs",
     "MM": "body-image-futio/src/mem_map_buf.rs", "WR": "body-image-futio/src/wrappers.rs",
     "TU": "body-image-futio/src/tune.rs", "BL": "body-image-futio/src/blocking.rs",
     "FU": "body-image-futio/src/lib.rs", "FE": "body-image-futio/src/fetch.rs", "PI": "piccolog/src/lib.rs",
     "CL": "barc-cli/src/main.rs", "RE": "barc-cli/src/record.rs"}
C = "/tmp/seedcopy"
if not os.path.isdir(C): subprocess.check_call(["cp", "-a", "/repo", C])
subprocess.check_call("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", shell=True, cwd=C)
assert not subprocess.check_output("git -C /repo status --short", shell=True)

def apply(root, edits):
    for f, old, new in edits:
        p = os.path.join(root, F[f]); t = open(p).read()
        if t.count(old) != 1: return "edit matches %d times: %s" % (t.count(old), old[:50])
        open(p, "w").write(t.replace(old, new))

def tests(edits):
    try:
        apply(C, edits)
        r = subprocess.run(""". /opt/vp/env.sh; timeout 60 cargo test --no-fail-fast "${FLAGS[@]}" -- --test-threads 8 >/tmp/mut-test.log 2>&1
            python3 /opt/vp/results.py /tmp/mut-out.json "cargo:/tmp/mut-test.log" >/dev/null""", shell=True, cwd=C, executable="/bin/bash")
        o = json.load(open("/tmp/mut-out.json")); b = json.load(open("/opt/vp/BASELINE.json"))
        bad = [t for t in b["stable"] if t not in o["passed"]]
        return "tests pass" if not bad else "%d TESTS FAIL" % len(bad)
    finally:
        subprocess.check_call("git checkout -q -f .", shell=True, cwd=C)

for m in spec["M"]:
    id, props, edits = m[0], m[1], m[2]
    quiet = not props  # a behaviour-preserving change
    if quiet: props = os.environ.get("MUT_PROPS") or " ".join("C%02d" % i for i in range(1, 35))
    if only and id not in only and not any(p in only for p in props.split()): continue
    try:
        e = apply("/repo", edits)
        if e: print(id, e, flush=True); continue
        t = [None]
        th = threading.Thread(target=lambda: t.__setitem__(0, tests(edits))); th.start()
        out = []
        for p in props.split():
            r = subprocess.run(["timeout", "900", "/verif/check", p], capture_output=True, text=True)
            s = r.stdout + r.stderr
            v = re.search(r"VIOLATION.*\n(.*)", s)
            if quiet and r.returncode == 0: continue
            if r.returncode == 1: out.append("%s caught: %s" % (p, (v.group(1) if v else "")[:110].strip()))
            elif r.returncode == 0: out.append("%s MISSED" % p)
            else: out.append("%s exit %d %s" % (p, r.returncode, s[-300:]))
        th.join()
        print(id, "|", t[0], "|", "; ".join(out), flush=True)
    finally:
        subprocess.check_call("git checkout -q -- .", shell=True, cwd="/repo")
