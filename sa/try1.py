import sys,time,traceback
sys.path.insert(0,'/verif/sa'); sys.setrecursionlimit(100000)
import threading; threading.stack_size(1<<30)
import dump
from interp import *
import signal
def main():
    P=Prog(dump.load())
    pats=[a for a in sys.argv[1:] if not a.startswith('-')]; OPQ=[a[1:] for a in sys.argv[1:] if a.startswith('-')]
    for f in P.d['fns']:
        if '{closure' in f['path'] or f['path'].startswith('tests') or '::tests::' in f['path']: continue
        if pats and not any((f['np']==p or (p.endswith('*') and p[:-1] in f['np'])) for p in pats): continue
        I=Interp(P,opaque=OPQ)
        t0=time.time()
        try:
            signal.alarm(20)
            st={'FX':NIL,'RNG':ZERO}
            args=[]
            for i in range(1,f['argc']+1):
                ti=f['locals'][i]['ty']; ty=P.ty(ti)
                nm='a%d'%i
                if ty['k']=='ref' and ty['m']:
                    st[nm]=I.havoc(ty['t'],mk('sym',nm)); args.append(mk('ref',nm,()))
                else: args.append(I.havoc(ti,mk('sym',nm)))
            r=I.run_body(f,args,st)
            signal.alarm(0)
            print('OK  %-60s %.2fs'%(f['np'],time.time()-t0), 'UNMOD' if I.unmod else '', set(p for p,_ in I.unmod) or '')
            if pats:
                if 1: print('  ret=',show(r)[:3000])
                for k,v in st.items(): print('   ',k,'=',show(v)[:3000])
        except (Exception,KeyboardInterrupt) as e:
            signal.alarm(0)
            print('ERR %-60s %.2fs %s: %s'%(f['np'],time.time()-t0,type(e).__name__,str(e)[:150]))
            if pats: traceback.print_exc(limit=-8)
class TO(Exception): pass
def h(*a): raise TO()
signal.signal(signal.SIGALRM,h)
main()
