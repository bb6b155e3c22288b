import sys; sys.path[:0]=['/verif/lib']
import harness,time
t=time.time()
try:
    r=harness.model_check(sys.argv[1], sys.argv[2] if len(sys.argv)>2 else None, collect='@T@')
    print(r.distinct,r.generated,len(r.printed),time.time()-t)
except Exception as e: print(str(e)[-3500:])
