"""tools/design_numbers.py: bring the counts and enumerations of DESIGN.md up to
date with the evidence of the last quick runs."""
import json, re, textwrap
s = open("/verif/DESIGN.md").read()
for i in range(1, 35):
    p = "C%02d" % i
    d = json.load(open("/verif/evidence/%s.json" % p)); c = d["coverage"]
    if d["tier"] != "quick" or not c["exhaustive"]: print(p, "left as it is"); continue
    rule = textwrap.fill("Enumerated: " + c.get("rule", c.get("space")).rstrip(".") + ".", 78, break_on_hyphens=False)
    quick = "Quick: {:,} executions, {:,} states, {:.1f} s.".format(c.get("evaluations", c.get("traces_validated_against_impl")), c["states"], d["wall_s"])
    s, n = re.subn(r"(\*\*%s\*\* (?:.*\n)+?)Enumerated: (?:.*\n)+?(Oracle: (?:.*\n)+?)Quick: .*" % p,
                   lambda m: m.group(1) + rule + "\n" + m.group(2) + quick, s)
    assert n == 1, p
open("/verif/DESIGN.md", "w").write(s)
