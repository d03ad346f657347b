"""functions under contract per property, from the evidence of the last run"""
import json, glob, re
for f in sorted(glob.glob('/verif/evidence/C*.json')):
    e=json.load(open(f)); c=e['coverage']
    fs={}
    for x in c['functions_under_contract']:
        fs.setdefault(x['function'],[0,0,set()]); fs[x['function']][0]+=x['obligations']; fs[x['function']][1]+=x['discharged']; fs[x['function']][2].add(x['features'])
    print(e['property'],e['level'],c['obligations'],c['discharged'],len(fs),'functions', round(c['solver_seconds']),'s', c['back_ends'])
    print('   ', ', '.join(sorted(k+('' if len(v[2])==2 else '['+list(v[2])[0]+']') for k,v in fs.items())))
