#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: python3 tools/manifest.py"""
import json,re,os,subprocess
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have=set()
for f in os.listdir(root+'/harness/props'):
    for m in re.finditer(r'Registry\["(C\d\d)"\]',open(root+'/harness/props/'+f).read()): have.add(m.group(1))
notes=json.load(open(root+'/tools/notes.json'))
checks=[];na=[]
for l in open(root+'/properties.jsonl'):
    p=json.loads(l); i=p['id']
    if i in have:
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough",
          "technique":"symbolic execution of the Go SSA with SMT (z3) over bit-vectors and IEEE floats, counterexamples replayed natively",
          "level":"model_checking","level_note":notes.get(i,"Bounded: see DESIGN.md.")})
    else: na.append({"property":i,"reason":notes["na"].get(i,"not built yet")})
json.dump({"version":1,"setup_cmd":"cd gosym && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o ../.bin/gosym .","checks":checks,"not_applicable":na},open(root+'/MANIFEST.json','w'),indent=1)
