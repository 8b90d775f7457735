import sys; sys.path.insert(0,'/verif/sa'); sys.setrecursionlimit(200000)
import threading; threading.stack_size(1<<30)
import traceback, importlib, os, collections, time
import framework as F
def main():
    m=importlib.import_module('checks.'+sys.argv[1]); ck=F.Check('PXX','quick')
    getattr(m,sys.argv[2])(ck)
    for n,f,w,t in ck.queue:
        if n==sys.argv[3]:
            ck.cur=n; ck.where=w
            f()
t=threading.Thread(target=main); t.daemon=True; t.start()
t.join(float(sys.argv[4]))
fr=sys._current_frames()[t.ident]
st=traceback.extract_stack(fr)
for s in st:
    if not('term.py' in s.filename): print(os.path.basename(s.filename),s.lineno,s.name,s.line[:90])
os._exit(0)
