"""Fill the generated tables of DESIGN.md: the harnesses with their bounds, and the planted bugs."""

import ast
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def harnesses():
    out = []
    for n in range(1, 99):
        p = os.path.join(HERE, "props", f"c{n:02}.py")
        if not os.path.exists(p):
            continue
        tree = ast.parse(open(p).read())
        rows = []
        for f in tree.body:
            if not isinstance(f, ast.FunctionDef):
                continue
            for d in f.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "harness":
                    kw = {k.arg: k.value for k in d.keywords}
                    b = kw.get("bounds")
                    try:
                        b = ast.literal_eval(b) if b is not None else ""
                    except ValueError:
                        b = ast.unparse(b)
                    doc = (ast.get_docstring(f) or "").split("\n")[0]
                    rows.append((d.args[0].value, d.args[1].value, doc, b, "thorough" in kw))
        out.append(f"**C{n:02}** {(ast.get_docstring(tree) or '').splitlines()[0]}\n")
        for _, name, doc, b, th in rows:
            out.append(f"- `{name}`: {doc + ' ' if doc else ''}Bounds: {b}{' (deeper in the thorough tier)' if th else ''}.")
        out.append("")
    return "\n".join(out)


def seeded():
    out = ["| id | property | caught by | what it breaks, and when |", "|---|---|---|---|"]
    d = os.path.join(HERE, "seeded")
    rows = []
    for x in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, x, "meta.json")))
        rows.append((m["property"], x, m))
    caught = {}
    p = os.path.join(HERE, "tools", "caught.json")
    if os.path.exists(p):
        caught = json.load(open(p))
    for prop, x, m in sorted(rows, key=lambda r: r[:2]):
        c = ", ".join(caught.get(x, [prop]))
        out.append(f"| {x} | {prop} | {c} | {m['what_it_breaks']} Needs: {m['needs']} |".replace("\n", " "))
    return "\n".join(out)


p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
for name, text in (("harnesses", harnesses()), ("seeded", seeded())):
    s = re.sub(rf"(<!-- {name} -->\n).*?(\n<!-- end {name} -->)", lambda m: m.group(1) + text + m.group(2), s, flags=re.S)
open(p, "w").write(s)
