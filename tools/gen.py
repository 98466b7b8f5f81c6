"""Generate properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from the modules' META."""
import glob, importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, "/repo"]
props, checks, design = [], [], []
for f in sorted(glob.glob(V + "/mc/props/p[0-9]*.py")):
    pid = os.path.basename(f)[:-3].upper()
    m = importlib.import_module("mc.props." + pid.lower())
    M = m.META
    assert len(M["title"]) <= 80, (pid, len(M["title"]))
    assert len(re.findall(r"\.(?:\s|$)", M["statement"])) <= 3, (pid, "sentences")
    for x in M["files"]:
        assert os.path.exists("/repo/" + x), (pid, x)
    props.append({"id": pid, "title": M["title"], "statement": M["statement"],
                  "quantifier": {"over": M["over"], "text": M["quant"]}, "why_tests_cant": M["why"],
                  "anchors": {"files": M["files"], "mechanism": [{"name": a, "where": b} for a, b in M["mech"]]}})
    note = M.get("note") or ("Complete within the stated bounds: " + m.BOUNDS + ". Assumes: " + "; ".join(m.ASSUMPTIONS) + ".")
    checks.append({"property": pid, "quick_cmd": f"./check {pid} quick", "thorough_cmd": f"./check {pid} thorough",
                   "technique": "model checking: " + M["technique"], "level": "model_checking", "level_note": note})
    design.append(f"### {pid} {M['title']}\n\n{M['statement']}\n\n- **How it is decided**: {M['technique']}.\n- **Bounds**: {m.BOUNDS}.\n"
                  f"- **Assumptions / limits**: {'; '.join(m.ASSUMPTIONS)}.\n- **Why beyond the tests**: {M['why']}\n"
                  + (f"- **Oracle**: {M['oracle']}\n" if M.get("oracle") else "") + (f"- **Notes**: {M['notes']}\n" if M.get("notes") else ""))
open(V + "/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in props))
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python tools/selftest.py", "checks": checks, "not_applicable": [],
           "notes": "See DESIGN.md. No hooks were added to /repo; the checks import /repo's working tree."},
          open(V + "/MANIFEST.json", "w"), indent=1)
p = V + "/DESIGN.md"
s = open(p).read() if os.path.exists(p) else "<!-- props -->\n<!-- /props -->\n"
s = re.sub(r"<!-- props -->.*<!-- /props -->", lambda _: "<!-- props -->\n" + "\n".join(design) + "<!-- /props -->", s, flags=re.S)
open(p, "w").write(s)
print(len(props), "properties")
