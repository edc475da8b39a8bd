#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted bug | property | needs | breaks |\n|---|---|---|---|")
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{d}/meta.json"))
    print(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
