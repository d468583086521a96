"""Write DESIGN.md: tools/design_head.md, the properties, tools/design_tail.md."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def main():
    from harness import core
    from tools import make_docs as m
    t = os.path.join(HERE, "tools")
    out = [open(os.path.join(t, "design_head.md"), encoding="utf-8").read()]
    for p in m.P:
        line, pid = p["line"], p["line"]["id"]
        prop = core.load(pid)
        parts = ", ".join(f"{x.name} {x.quick}/{x.thorough}" for x in prop.parts)
        out.append(f"### {pid} {line['title']}\n\n"
                   f"{line['statement']}\n\n"
                   f"*Decided by* {m.TECH[pid]}. {prop.rule} "
                   f"Cases (quick/thorough): {parts}.\n\n"
                   f"*Bounds.* {p['note']}"
                   + "".join(f" {a}" for a in prop.assumptions) + "\n\n"
                   f"*Why tests cannot.* {line['why_tests_cant']}\n\n")
    out.append(open(os.path.join(t, "design_tail.md"), encoding="utf-8").read())
    rows = []
    seeded = os.path.join(HERE, "seeded")
    for name in sorted(os.listdir(seeded)):
        with open(os.path.join(seeded, name, "meta.json")) as f:
            d = json.load(f)
        rows.append(f"| {name} | {d['property']} | {d['needs']} |\n")
    out.append("\n## Planted bugs and the checks that catch them\n\n"
               "Every planted bug of `seeded/` is caught by the quick check of "
               "its property (confirmed by `tools/plant.py`, which also "
               "confirms its demonstration and that the stable tests pass "
               "with it).\n\n| bug | caught by | needs |\n|---|---|---|\n"
               + "".join(rows))
    with open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf-8") as f:
        f.write("".join(out))


if __name__ == "__main__":
    main()
