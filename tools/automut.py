"""tools/automut.py OUT.jsonl [file...]: mechanical changes of /repo's sources.

Meant to be run where /repo and /verif are scratch copies (see ns.sh).
Each change which compiles and passes the stable tests is given to the checks
that have to do with the file, until one reports a violation."""
import json, os, re, subprocess, sys
OUT = sys.argv[1]
PROPS = {
 "body-image/src/lib.rs": "C01 C30 C02 C03 C04 C26 C06 C07 C05 C08 C16 C22 C14",
 "body-image/src/_mem_handle_ext.rs": "C01 C05 C18 C23",
 "barc/src/lib.rs": "C16 C08 C09 C15 C12 C13 C14 C17 C04 C25 C11 C10",
 "barc/src/compress.rs": "C17 C08 C13 C14 C15 C12 C09",
 "body-image-futio/src/stream.rs": "C18 C19 C21 C29 C24 C23",
 "body-image-futio/src/sink.rs": "C20 C21 C29 C03 C04 C07",
 "body-image-futio/src/blocking.rs": "C18 C20 C21 C29",
 "body-image-futio/src/decode.rs": "C22 C03 C04 C27",
 "body-image-futio/src/uni_body_buf.rs": "C23 C18 C20",
 "body-image-futio/src/mem_map_buf.rs": "C23 C18 C19",
 "body-image-futio/src/wrappers.rs": "C24 C27",
 "body-image-futio/src/tune.rs": "C26 C27",
 "body-image-futio/src/lib.rs": "C27 C24 C26",
 "body-image-futio/src/fetch.rs": "C27 C28",
 "barc-cli/src/main.rs": "C25 C28",
 "barc-cli/src/record.rs": "C28",
}
done = set()
if os.path.exists(OUT):
    for l in open(OUT): d = json.loads(l); done.add((d["file"], d["line"], d["new"]))

def muts(s):
    """Changed versions of one line"""
    r = []
    def sub(pat, rep):
        for m in re.finditer(pat, s):
            new = s[:m.start()] + m.expand(rep) + s[m.end():]
            if new != s: r.append(new)
    for a, b in [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "),
                 (r" != ", " == "), (r" < ", " > "), (r" > ", " < "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "),
                 (r" \+= ", " -= "), (r" \+= ", " = "), (r"&&", "||"), (r"\|\|(?! )", "&&"), (r" \|\|$", " &&"), (r" \|\| (?=[a-z!(])", " && "),
                 (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bcontinue\b", "break"), (r"\bbreak\b(?! [A-Z])", "continue"),
                 (r"cmp::min", "cmp::max"), (r"cmp::max", "cmp::min"), (r"\bif !", "if "), (r"&& !", "&& "),
                 (r"\bif (?!let\b|!)([^{]*) \{", r"if !(\1) {"), (r"Interrupted", "WouldBlock"),
                 (r"saturating_add", "wrapping_add"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_some\(\)", ".is_none()"),
                 (r"SeekFrom::End\(0\)", "SeekFrom::Current(0)"), (r"res_(h|b|body|headers)\b", r"req_\1"), (r"req_(h|b|body|headers)\b", r"res_\1"),
                 (r"max_body_ram\(\)", "max_body()"), (r"max_body\(\)", "max_body_ram()"),
                 (r"buffer_size_fs", "buffer_size_ram"), (r"buffer_size_ram", "buffer_size_fs"),
                 (r"Blocking::Once", "Blocking::Always"), (r"Blocking::Void", "Blocking::Pending"), (r"Blocking::Pending", "Blocking::Void"),
                 (r"Gzip", "Deflate"), (r"Deflate", "Gzip"), (r"NO_CRLF", "WITH_CRLF"), (r"WITH_CRLF", "NO_CRLF")]:
        sub(a, b)
    for m in re.finditer(r"(?<![\w.{:])(0x[0-9a-f]+|\d+)(?![\w.:}x])", s):
        n = int(m.group(1), 0)
        for v in (n + 1, n - 1):
            if v >= 0: r.append(s[:m.start()] + str(v) + s[m.end():])
    t = s.strip()
    if t.endswith(";") and not re.match(r"(let|return|use|pub|const|static|type|mod|break|continue|\}|\))", t) and "(" in t or re.match(r"self\.[\w.]+ (\+)?= .*;$", t):
        r.append(re.sub(r"\S.*", ";", s, count=1).rstrip("\n") + "\n")
    if re.search(r"\?;$", t) and not re.match(r"(let|return|Ok)", t): r.append(s.replace("?;", ".ok();"))
    if t.startswith("return Err") and t.endswith(";"): r.append(re.sub(r"\S.*", ";", s, count=1).rstrip("\n") + "\n")
    return list(dict.fromkeys(r))

def run(cmd, timeout, **k):
    try:
        p = subprocess.Popen(cmd, shell=True, executable="/bin/bash", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **k)
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        return 124, ""

stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
for f in (sys.argv[2:] or PROPS):
    p = "/repo/" + f
    src = open(p).read().split("\n")
    end = next((i for i, l in enumerate(src) if l.startswith("#[cfg(test)]") and src[i + 1].startswith("mod")), len(src))
    depth = None
    for i in range(end):
        l = src[i]
        t = l.strip()
        if not t or t.startswith(("//", "#[", "use ", "pub use", "fn ", "pub fn", "pub(crate) fn", "impl", "where", "-> ", "debug!", "warn!", "trace!", "struct", "enum", "assert", "debug_assert", '"')): continue
        if re.search(r"debug!\(|fmt|with_capacity|with_ram_buffers|size_estimate|0x2000|_FutureProof", t): continue
        for new in muts(l + "\n"):
            new = new.rstrip("\n")
            if (f, i + 1, new) in done: continue
            m = src[:]; m[i] = new
            open(p, "w").write("\n".join(m))
            res = {"file": f, "line": i + 1, "old": t, "new": new}
            try:
                net = f.endswith(("fetch.rs", "record.rs"))
                if net: rc, o = run("/verif/check setup", 600)
                else: rc, o = run('. /opt/vp/env.sh; cargo test --no-run "${FLAGS[@]}"', 300)
                if rc != 0: continue
                rc, o = run('. /opt/vp/env.sh; timeout -k 1 40 cargo test --no-fail-fast "${FLAGS[@]}" -- --test-threads 8 >/tmp/am.log 2>&1; python3 /opt/vp/results.py /tmp/am.json cargo:/tmp/am.log', 90)
                ok = set(json.load(open("/tmp/am.json"))["passed"])
                if [x for x in stable if x not in ok]: res["by"] = "tests"
                else:
                    res["by"] = None; res["odd"] = []
                    for c in PROPS[f].split():
                        rc, o = run("/verif/check " + c, 400)
                        if rc == 1 and "VIOLATION property=" + c in o:
                            res["by"] = c
                            v = re.search(r"VIOLATION.*\n(.*)", o); res["msg"] = v.group(1)[:120] if v else ""
                            break
                        if rc != 0: res["odd"].append([c, rc, o[-300:]])
                with open(OUT, "a") as w: w.write(json.dumps(res) + "\n")
                if res["by"] is None: print(f, i + 1, t, "->", new.strip(), res["odd"], flush=True)
            finally:
                open(p, "w").write("\n".join(src))
