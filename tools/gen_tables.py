#!/usr/bin/env python3
# Development tool: writes SPACES.md (from the evidence of a quick run of every check) and the table of planted bugs for DESIGN.md.
import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E=os.environ.get('VERIF_OUT',V)+'/evidence'
P=[json.loads(l) for l in open(V+'/properties.jsonl')]
with open(V+'/SPACES.md','w') as f:
    f.write('# What each check enumerates (quick tier)\n\nGenerated by tools/gen_tables.py from the evidence files. Sizes count indices; one index often stands for many evaluations.\n')
    for p in P:
        d=json.load(open(E+'/%s.json'%p['id'])); c=d['coverage']
        f.write('\n## %s %s\n\n'%(p['id'],p['title']))
        f.write('%s evaluations, %s distinct states, %s transitions, %s traces%s.\n\n'%(c['evaluations'],c['states'],c['transitions'],c['traces_validated_against_impl'],'' if c['exhaustive'] else ' (NOT complete)'))
        f.write('| space | enumerated | size |\n|---|---|---|\n')
        for s in c['spaces']: f.write('| %s | %s | %d |\n'%(s['space'],s.get('enumerated','').replace('|','\\|'),s['size']))
seeds={}
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    d=json.load(open(m)); seeds.setdefault(d['property'],[]).append((os.path.basename(os.path.dirname(m)),d))
with open(V+'/SEEDS.md','w') as f:
    f.write('# Planted bugs\n\nEach is caught by the check of its property. Generated by tools/gen_tables.py; see DESIGN.md for those first missed.\n')
    for p in P:
        l=seeds.get(p['id'],[])
        f.write('\n## %s (%d)\n\n| bug | needs | breaks |\n|---|---|---|\n'%(p['id'],len(l)))
        for n,d in l: f.write('| %s | %s | %s |\n'%(n,d['needs'].replace('|','\\|'),d['what_it_breaks'].replace('|','\\|')))
print(sum(map(len,seeds.values())),'seeds',{k:len(v) for k,v in seeds.items()})
