#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json,re,glob,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(here)
have={}
for f in glob.glob('harness/*/*.go'):
    src=open(f).read()
    for m in re.finditer(r'((?:^//[^\n]*\n)*)^func ([A-Z]\d\d)_(\w+)\(',src,re.M):
        have.setdefault(m[2],[]).append(m[3])
checks=[];na=[]
for l in open('properties.jsonl'):
    p=json.loads(l)['id']
    if p in have:
        checks.append({"property":p,"quick_cmd":"./check.sh %s quick"%p,"thorough_cmd":"./check.sh %s thorough"%p,
          "technique":"symbolic execution of the Go SSA of /repo, path conditions and assertions decided by z3 (bit-vectors)",
          "level":"model_checking",
          "level_note":"Bounded: holds for every value of the symbolic inputs within the bounds each harness states (harness/*/*.go doc comments, repeated in the evidence); nothing is claimed beyond them. Harnesses: "+", ".join(sorted(have[p]))+"."})
    else:
        na.append({"property":p,"reason":"no check built yet"})
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na},open('MANIFEST.json','w'),indent=1)
print(len(checks),'checks',[x['property'] for x in na])
