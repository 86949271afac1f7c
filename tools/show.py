import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1])); c=d['coverage']
print(d.get('wall_s'),{k:c[k] for k in c if k in('obligations','discharged_structurally','discharged_by_solver','undecided','queries','solver_seconds','functions_encoded','case_split_paths')})
for u in c.get('units',[]): print(json.dumps(u)[:1500])
