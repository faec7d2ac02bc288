#!/usr/bin/env python3
"""addfixed.py PROP COMMIT TEXT: record a repaired defect in known_findings.json"""
import json,sys
p,c,t=sys.argv[1:4]
f='/verif/known_findings.json'
d=json.load(open(f))
d['findings'].append({"status":"fixed","property":p,"key":"fixed/"+c,"commit":c,"what":f"fixed: property={p} {c} {t}"})
json.dump(d,open(f,'w'),indent=1); open(f,'a').write('\n')
