import json,sys,collections
r=json.load(open(sys.argv[1])); c=collections.Counter(); ex={}
for v in r["violations"]:
    e=v["event"]; k=(v["clauses"],)+tuple(str(e.get(q)) for q in ("k","f","fmt","form","be","meas")+tuple(sys.argv[2:]) if q in e)
    c[k]+=1; ex.setdefault(k,json.dumps(e)[:500])
for k,n in c.most_common(30): print(n,k,"\n     ",ex[k])
