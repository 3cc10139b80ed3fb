import json,re,glob
claimed=set()
for f in glob.glob('/verif/contracts/*.go'):
    for m in re.finditer(r'^//verif:contract (\S+)',open(f).read(),re.M): claimed|=set(m.group(1).split(','))
try:
    extra=open('/verif/tools/claimed_extra.txt').read().split()
except FileNotFoundError: extra=[]
claimed|=set(extra)
notes=json.load(open('/verif/tools/level_notes.json'))
checks=[];na=[]
for l in open('/verif/properties.jsonl'):
    d=json.loads(l)
    i=d['id']
    if i in claimed:
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough","evidence_file":f"evidence/{i}.json",
          "technique":"contract-based deductive verification: Go contracts on the real functions, obligations discharged by the gover verifier (rewriting, structural induction, z3, cvc5)",
          "level":"proof","level_note":notes.get(i,notes["default"])})
    else:
        na.append({"property":i,"reason":"contracts not written yet"})
m={"version":1,"setup_cmd":"bash setup.sh","hooks":{"guard":"none","enable":"no hooks in /repo are needed: contracts are separate files checked together with /repo's current source","source_commits":[]},
   "checks":checks,"not_applicable":na,
   "notes":"Known findings and repaired defects: known-findings.txt. Design: DESIGN.md."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
