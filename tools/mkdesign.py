"""Writes /verif/DESIGN.md from tools/design_head.md, the checks, the last evidence of the quick tier, and tools/design_tail.md."""
import ast, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(ROOT, "tools")
B = os.path.join(T, "bounds.json")
bounds = json.load(open(B)) if os.path.exists(B) else {}
out = [open(os.path.join(T, "design_head.md")).read()]
for p in (json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))):
    i = p["id"]
    tree = ast.parse(open(os.path.join(ROOT, "checks", i.lower() + ".py")).read())
    doc = " ".join(ast.get_docstring(tree).split())
    rule, ass = "", []
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "Check":
            for k in n.keywords:
                if k.arg == "rule":
                    rule = ast.literal_eval(k.value)
                if k.arg == "assumptions":
                    ass = ast.literal_eval(k.value)
    e = os.path.join(ROOT, "evidence", i + ".json")
    if os.path.exists(e):
        e = json.load(open(e))
        if e["tier"] == "quick":
            c = e["coverage"]
            bounds[i] = dict(b=c["bounds"], states=c["states"], transitions=c["transitions"], wall=round(e["wall_s"]))
    b = bounds.get(i, dict(b={}, states=0, transitions=0, wall=0))
    out.append("### %s %s\n\n%s\n\n" % (i, p["title"], doc.split(": ", 1)[-1] if doc.startswith(i) else doc))
    out.append("* Unit: %s.\n" % rule)
    bs = "; ".join("%s: %s" % (k.replace("_", " "), v if isinstance(v, str) else json.dumps(v)) for k, v in b["b"].items())
    out.append("* Quick: %s%d states, %d transitions, about %d s.\n" % (bs[:600] + ". " if bs else "", b["states"], b["transitions"], b["wall"]))
    parts = [k.args[0].value if isinstance(k.args[0], ast.Constant) else k.args[0].left.value.replace("%d", "") + "*" for k in sorted((n for n in ast.walk(tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "explore" and n.args), key=lambda n: n.lineno) if isinstance(k.args[0], ast.Constant) or isinstance(k.args[0], ast.BinOp) and isinstance(k.args[0].left, ast.Constant)]
    if len(parts) > 1:
        out.append("* Explorations: %s.\n" % ", ".join(dict.fromkeys(x.replace("_", " ") for x in parts)))
    if ass:
        out.append("* Assumed or left open: %s.\n" % "; ".join(ass))
    out.append("* Beyond tests: %s.\n\n" % p["why_tests_cant"].rstrip("."))
json.dump(bounds, open(B, "w"), indent=1, sort_keys=True)
out.append(open(os.path.join(T, "design_tail.md")).read())
S = os.path.join(ROOT, "seeded")
for i in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, i, "meta.json")))
    out.append("* `%s`: %s (needs: %s). Caught by %s.\n" % (i, m["what_it_breaks"].rstrip("."), m["needs"].rstrip("."), m["property"]))
K = json.load(open(os.path.join(ROOT, "known_findings.json")))
out.append("\n## Known findings (not repaired)\n\n" + "".join("* `%s` (%s): %s.\n" % (k["id"], k["property"], k["what"]) for k in K["findings"]))
out.append("\n## Defects repaired\n\n%d `fix:` commits, each found by a check (or by reading for one) and confirmed against the real code; after each the existing tests pass.\n\n" % len(K["fixed"]))
out.append("".join("* %s\n" % x.replace("fixed: property=", "") for x in K["fixed"]))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("".join(out))
