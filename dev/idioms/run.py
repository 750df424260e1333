import sys,re
sys.path[:0]=['/verif/lib','/verif/props','/verif']
import load,com,poly as P
from scen import *
import scen
TU='/verif/dev/idioms/%s.cpp'%(sys.argv[1] if len(sys.argv)>1 else 'a')
load_root=load.export
def ex(tus,**k):
    return load_root(tus,root=":".join([load.REPO+"/src",load.REPO+"/include",load.REPO+"/python",load.HERE+"/tu",'/verif/dev/idioms']),**k)
load.export=ex
import check as C
import inspect
names=re.findall(r'^D (t_\w+)\(D a\)',open(TU).read(),re.M)
if len(sys.argv)>2: names=sys.argv[2].split(',')
import subprocess,tempfile
src=open('/tmp/idioms_main.cpp','w')
src.write('#include "%s"\n#include <cstdio>\nint main(){\n'%TU+''.join('printf("%s %%.17g\\n",verif::%s(7.));\n'%(n,n) for n in names)+'}\n'); src.close()
fl=[f for f in load.flags() if f.startswith('-I') or f.startswith('/')]
fl=load.flags(); inc=[]
i=0
while i<len(fl):
    if fl[i].startswith('-I'): inc.append(fl[i])
    elif fl[i]=='-isystem': inc+=fl[i:i+2]; i+=1
    i+=1
r=subprocess.run(['g++','-std=gnu++17','-w','/tmp/idioms_main.cpp','-o','/tmp/idioms_main']+inc+['-Wl,--unresolved-symbols=ignore-all'],stderr=subprocess.PIPE,text=True)
print(r.stderr[:3000])
exp=dict(l.split() for l in subprocess.run('/tmp/idioms_main',stdout=subprocess.PIPE,text=True).stdout.split('\n') if l)
prog=program([TU])
class CK:
    def __getattr__(self,n): return lambda *a,**k: None
for n in names:
    try:
        r=com.Run(CK(),n)
        r.go('verif::'+n,1,lambda e:[7],prog=prog)
        v=r.res
        ok=False
        try: ok=abs(float(v)-float(exp[n]))<1e-9
        except Exception: pass
        if not ok: print('BAD',n,'got',str(v)[:80],'want',exp[n],str(getattr(r.eng,'unk',None))[:200],str(r.throw)[:100])
    except Exception as e:
        print('EXC',n,type(e).__name__,str(e)[:250])
