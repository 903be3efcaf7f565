import sys
sys.path.insert(0,'/verif')
from sa.project import Project
from sa.interp import Interp
root=sys.argv[3] if len(sys.argv)>3 else '/repo'
p=Project(root)
it=Interp(p, noinline=set(sys.argv[2].split(',')) if len(sys.argv)>2 else ())
r=it.run(p.fn(sys.argv[1]))
for e in r.events:
    if e.kind!='load': print('  '*len(e.frames), e)
print('RET', r.value)
