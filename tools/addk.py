import json,sys
k=json.load(open('/verif/known_findings.json'))
p,c,t=sys.argv[1:4]
n=max(int(x['id'][1:]) for x in k['findings'])+1
k['findings'].append({"id":"F%d"%n,"status":"fixed","property":p,"commit":c,"text":"fixed: property=%s %s %s"%(p,c,t)})
open('/verif/known_findings.json','w').write('{"findings": [\n '+',\n '.join(json.dumps(x) for x in k['findings'])+'\n]}\n')
