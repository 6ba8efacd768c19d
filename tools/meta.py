import os; ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import json,sys
# usage: meta.py ID technique rule bounds
p=ROOT+'/checks/meta.json'; m=json.load(open(p)); i,t,r,b=sys.argv[1:5]
T={"S":"stateless model checking of the real program under a controlled scheduler and network"}
e=m.get(i,{}); e.update(technique=T.get(t,t),rule=r,bounds=b); m[i]=e
json.dump(dict(sorted(m.items())),open(p,'w'),indent=1)
