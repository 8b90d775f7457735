"""python3 /tmp/one.py module function obligation : run one obligation in process with traceback"""
import sys; sys.path.insert(0,'/verif/sa'); sys.setrecursionlimit(200000)
import threading; threading.stack_size(1<<30)
import traceback, importlib, os
import framework as F
def main():
    m=importlib.import_module('checks.'+sys.argv[1]); ck=F.Check('PXX','quick')
    getattr(m,sys.argv[2])(ck)
    for n,f,w,t in ck.queue:
        if n==sys.argv[3]:
            ck.cur=n; ck.where=w
            try: f()
            except BaseException: traceback.print_exc(limit=-int(os.environ.get('LIM','12')))
            for o in ck.obl: print(o[0],o[1],o[2][:int(os.environ.get('W','800'))])
t=threading.Thread(target=main); t.start(); t.join()
