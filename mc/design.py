"""Rewrites the generated parts of DESIGN.md (between the markers) from the catalogue, the check
modules and catches.tsv:  python -m mc.design"""
import importlib
import os
import re

from mc import catalog

HERE = catalog.VERIF


def section(p):
    m = importlib.import_module(f"mc.props.{p['id'].lower()}")
    doc = " ".join((m.__doc__ or "").split())
    out = [f"### {p['id']}: {p['title']}", "", p["statement"], "",
           f"* **Decided by** {p['technique']}. {p['note']}",
           f"* **Check** `mc/props/{p['id'].lower()}.py`: {doc}",
           f"* **Explored** {m.RULE}.",
           f"* **Quick bound** {m.BOUNDS['quick']}.",
           f"* **Thorough bound** {m.BOUNDS['thorough']}."]
    if getattr(m, "ASSUMPTIONS", None):
        out.append("* **Assumes** " + "; ".join(m.ASSUMPTIONS) + ".")
    out.append(f"* **Tests cannot** {p['why']}.")
    return "\n".join(out) + "\n"


def table():
    rows = ["| planted change | breaks | needs | caught by (quick) |", "|---|---|---|---|"]
    with open(os.path.join(HERE, "catches.tsv")) as f:
        for line in f:
            if line.strip() and not line.startswith("#"):
                rows.append("| " + " | ".join(x.strip() for x in line.rstrip("\n").split("\t")) + " |")
    return "\n".join(rows) + "\n"


def fill(text, name, body):
    a, b = f"<!-- {name}:begin -->", f"<!-- {name}:end -->"
    return re.sub(re.escape(a) + ".*?" + re.escape(b), lambda _: f"{a}\n{body}{b}", text, flags=re.S)


def main():
    path = os.path.join(HERE, "DESIGN.md")
    with open(path) as f:
        t = f.read()
    props = sorted((p for p in catalog.PROPS if catalog.built(p)), key=lambda p: p["id"])
    t = fill(t, "properties", "\n" + "\n".join(section(p) for p in props))
    t = fill(t, "catches", "\n" + table())
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        fx = [m.groups() for m in (re.match(r"fixed: property=(\w+) (\w+) (.*)", x) for x in f) if m]
    t = fill(t, "fixed", "\n| commit | defect | property |\n|---|---|---|\n" +
             "".join(f"| {c} | {d} | {p} |\n" for p, c, d in fx))
    with open(path, "w") as f:
        f.write(t)


if __name__ == "__main__":
    main()
