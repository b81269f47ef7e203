"""Print the table of planted bugs for DESIGN.md (the last column is given by hand)."""
import json, pathlib, sys
root = pathlib.Path(__file__).resolve().parent.parent / 'seeded'
print('| id | property | what it breaks | needs |\n|---|---|---|---|')
for d in sorted(root.iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    print(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
