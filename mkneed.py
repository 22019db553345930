"""need.json from the evidence of several runs (runall.sh 1 2 ...): what every run observed often enough to be demanded of each."""
import json,glob
need={}
for i in range(1,33):
    p='C%02d'%i
    cs=None
    for f in glob.glob('work/%s.*.json'%p):
        o=json.load(open(f))['coverage']['observed']
        o={k for k,v in o.items() if v>=100 or (v>2 and k.startswith(('deepest','view nesting','threads at')))}
        cs=o if cs is None else cs&o
    need[p]=sorted(k for k in cs if not k.startswith(('most ','large leftovers')))
json.dump(need,open('need.json','w'),indent=0,sort_keys=True)
