import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from pyvc.prove import prove
from specs import registry
s=registry.get(sys.argv[1]); 
r=prove(s,s.cases[int(sys.argv[3]) if len(sys.argv)>3 else 0],debug=sys.argv[2])
print(r['error'])
