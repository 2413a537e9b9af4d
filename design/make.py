"""Writes DESIGN.md from design/*.md, the checks and the catch table."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda p: open(os.path.join(V, p)).read()
out = [R("design/head.md"), "\n## 2. Per property\n"]
props = [json.loads(l) for l in R("properties.jsonl").splitlines() if l.strip()]
texts = json.loads(R("design/props.json"))
for p in props:
    i = p["id"]
    t = ast.parse(R(f"checks/{i}.py"))
    c = {n.targets[0].id: ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "ASSUMPTIONS", "SHARDS")}
    out.append(f"### {i} — {p['title']}\n\n*Specified / oracle.* {texts[i]['oracle']}\n\n*Enumerated (quick).* {c['BOUNDS']['quick']}.\n\n"
               f"*Enumerated (thorough).* {c['BOUNDS']['thorough']}.\n\n*Assumptions.* " + "; ".join(c["ASSUMPTIONS"]) +
               f".\n\n*Why beyond the tests.* {texts[i]['why']}\n\n*Cost.* about {texts[i].get('quick', '?')} s quick"
               + (f", {texts[i]['thorough']} thorough" if texts[i].get("thorough") else "") + f" ({c['SHARDS']['quick']} processes).\n")
k = json.loads(R("known_findings.json"))
out.append("## 3. Genuine defects found\n\nRecorded, not repaired (`KNOWN-FINDING`, exit 0):\n")
out += [f"* {f['property']} (`{f['key']}`): {f['what']}. Not repaired: the choice between the uniform evaluation grid (used by the examples) and the points of the gmsh mesh is the maintainers'; "
        "any repair changes documented outputs." for f in k["findings"]]
out.append("\nRepaired, one `fix:` commit each in /repo (reverting any of them makes the named check report the violation again; checked):\n")
out += ["* " + f[len("fixed: "):] for f in k["fixed"]]
out.append("\n## 4. Planted bugs and which checks catch them\n\nEvery bug was written from the property's text and the code, validated (applies, builds, all stable tests pass, "
           "demo 0 -> nonzero), and then run against the check of its property. \"first missed\" marks those that led to a stronger check.\n\n| bug | needs | result |\n|---|---|---|")
cat = json.loads(R("design/catches.json"))
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.loads(R(f"seeded/{b}/meta.json"))
    out.append(f"| {b} | {m['needs']} | {cat.get(b, 'not yet run')} |")
out.append("\n" + R("design/tail.md"))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
