"""Writes DESIGN.md from hrv/design, the checks and the planted bugs."""
import ast
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(*path):
    with open(os.path.join(V, *path), encoding="utf-8") as f:
        return f.read()


def main():
    props = [json.loads(x) for x in read("properties.jsonl").splitlines()]
    notes = {x.split("|")[0]: x.split("|")[1:]
             for x in read("hrv", "design", "props.txt").splitlines()}
    out = [read("hrv", "design", "head.md")]
    for p in props:
        i = p["id"]
        for n in ast.parse(read("checks", f"{i}.py")).body:
            if isinstance(n, ast.Assign) and n.targets[0].id == "check":
                about = ast.literal_eval(n.value.args[1])
        o, b = notes[i]
        out.append(f"### {i} {p['title']}\n\n{about}\n\n{o}\n\n{b}\n\n")
    out.append(read("hrv", "design", "tail.md"))
    missed = read("hrv", "design", "missed.txt").split()
    out.append("| planted bug | check | needs | breaks | |\n"
               "|---|---|---|---|---|\n")
    for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        with open(f, encoding="utf-8") as g:
            d = json.load(g)
        i = f.split(os.sep)[-2]
        out.append(f"| {i} | {d['property']} | {d['needs']} | "
                   f"{d['what_it_breaks']} | "
                   f"{'at first missed' if i in missed else ''} |\n")
    with open(os.path.join(V, "DESIGN.md"), "w", encoding="utf-8") as f:
        f.write("".join(out))


if __name__ == "__main__":
    main()
