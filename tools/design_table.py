"""prints the table of planted bugs for DESIGN.md (development tool)"""
import json, os
R = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
print("| planted bug | caught by | needs |\n|---|---|---|")
for d in sorted(os.listdir(R)):
    m = json.load(open(os.path.join(R, d, "meta.json")))
    print(f"| {d} | {m['property']} | {m['needs']} |")
