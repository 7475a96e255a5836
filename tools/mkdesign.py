#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (section 8)."""
import json,glob,os
base=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted bug | caught by | needs |\n|---|---|---|")
for f in sorted(glob.glob(base+"/seeded/*/meta.json")):
    m=json.load(open(f)); print("| %s | %s | %s |"%(f.split("/")[-2],m["property"],m["needs"].replace("|","\\|")))
