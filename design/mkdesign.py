import json,re,glob
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
notes=json.load(open('/verif/design/notes.json'))
out=open('/verif/design/design_head.md').read()
out+="\n## The properties, one by one\n\nFor each: what is generated, the oracle and the non-trivial rule (verbatim the `rule` of the evidence file), then what a test cannot reach and the bounds.\n"
for d in props:
    src=''.join(open(f).read() for f in sorted(glob.glob('/verif/harness/src/vgx/cmd/%s/*.go'%d['id'].lower())))
    rule=re.search(r'Rule:\s*"((?:[^"\\]|\\.)*)"',src)
    rule=rule.group(1) if rule else ''
    out+="\n### %s %s\n\n%s\n\n- Generated and judged: %s.\n- Beyond the tests: %s\n"%(d['id'],d['title'],d['statement'],rule,d['why_tests_cant'])
    if d['id'] in notes: out+="- Oracle, bounds, remarks: %s\n"%notes[d['id']]
out+="\n"+open('/verif/design/design_tail.md').read()
import os
seeds=json.load(open('/verif/design/seeds.json'))
tab="| planted bug | property | needs | caught by |\n|---|---|---|---|\n"
for k in sorted(seeds):
    m=json.load(open('/verif/seeded/%s/meta.json'%k))
    tab+="| %s | %s | %s | %s |\n"%(k,m['property'],m['needs'].replace('|','/').replace('\n',' '),seeds[k])
out=out.replace('SEEDTABLE',tab)
open('/verif/DESIGN.md','w').write(out)
