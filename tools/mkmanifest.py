import json,os
here='/verif'
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    d=f'{here}/harness/{i.lower()}'
    if os.path.isdir(d):
        note=open(d+'/NOTE').read().strip() if os.path.exists(d+'/NOTE') else 'bounded'
        checks.append({"property":i,"quick_cmd":f"./check {i} quick","thorough_cmd":f"./check {i} thorough",
          "technique":"bounded symbolic execution of the Go SSA of /repo, decided by z3; counterexamples replayed natively",
          "level":"model_checking","level_note":note})
    else:
        na.append({"property":i,"reason":"check not built yet"})
json.dump({"version":1,"setup_cmd":"./build","checks":checks,"not_applicable":na},open(here+'/MANIFEST.json','w'),indent=1)
