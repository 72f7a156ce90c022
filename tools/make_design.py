"""Writes DESIGN.md from design_head.md, design_notes.py, the checks, known_findings.jsonl and seeded/."""
import ast, json, os, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
sys.path.insert(0, T); sys.dont_write_bytecode = True
import design_notes as notes
out = [open(os.path.join(T, "design_head.md")).read()]
known, fixed = {}, {}
for l in open(os.path.join(V, "known_findings.jsonl")):
    l = l.strip()
    if l.startswith("{"):
        d = json.loads(l); known.setdefault(d["property"], []).append(d)
    elif l.startswith("fixed:"):
        _, p, rest = l.split(" ", 2); fixed.setdefault(p.split("=")[1], []).append(rest)
seeded = {}
sd = os.path.join(V, "seeded")
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    d = json.load(open(os.path.join(sd, s, "meta.json"))); seeded.setdefault(d["property"], []).append((s, d))
def lit(node, env={}):
    try:
        return ast.literal_eval(node)
    except ValueError:
        names = {}
        for k, v in env.items():
            try:
                names[k] = ast.literal_eval(v)
            except ValueError:
                try:
                    names[k] = eval(compile(ast.Expression(v), "x", "eval"), dict(names))
                except Exception:
                    pass
        return eval(compile(ast.Expression(node), "x", "eval"), names)
out.append("\n## 2. The properties\n")
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    tree = ast.parse(open(os.path.join(V, "checks", i + ".py")).read())
    g = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            g[n.targets[0].id] = n.value
    spaces = []
    for e in g["SPACES"].elts:
        a = {k: v for k, v in zip(('name', 'gen', 'step', 'bound'), e.args)} | {k.arg: k.value for k in e.keywords}
        if 'bound' not in a: print(i, ast.unparse(e)); continue
        spaces.append((lit(a['name'], g), lit(a['bound'], g)))
    tech = lit(g["TECHNIQUE"]) if "TECHNIQUE" in g else "bounded exhaustive exploration of the real code, every step compared with a reference model"
    out.append(f"### {i}  {p['title']}\n")
    out.append(p["statement"] + "\n")
    out.append(f"*Decided by:* {tech}.  \n*Anchored in:* {', '.join('`' + f.replace('src/python/zquantum/core/', '') + '`' for f in p['anchors']['files'])}.  ")
    out.append(f"*Beyond tests:* {p['why_tests_cant']}" + (" " + notes.REACH[i] if i in notes.REACH else "") + "\n")
    out.append("Spaces (each enumerated completely):\n")
    out += [f"- `{n}`: {b}" for n, b in spaces]
    if "ASSUMPTIONS" in g:
        out.append("\nAssumptions: " + "; ".join(lit(g["ASSUMPTIONS"])) + ".")
    if i in fixed:
        out.append("\nDefects found and repaired:\n")
        out += ["- `" + x.split(" ", 1)[0] + "` " + x.split(" ", 1)[1] for x in fixed[i]]
    if i in known:
        out.append("\nDefects found and recorded (not repaired):\n")
        out += [f"- space `{d['space']}`: {d['what']}" for d in known[i]]
    if i in notes.FALSE:
        out.append("\nFalse alarms corrected in the machinery: " + "; ".join(notes.FALSE[i]) + ".")
    if i in seeded:
        out.append("\nPlanted bugs:\n")
        out += [f"- `{s}` ({d['what_it_breaks']}; needs {d['needs']}): {notes.CAUGHT.get(s, 'caught by ' + i)}" for s, d in seeded[i]]
    out.append("")
t = os.path.join(T, "design_tail.md")
if os.path.exists(t):
    out.append(open(t).read())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
print(len("\n".join(out).splitlines()), "lines")
