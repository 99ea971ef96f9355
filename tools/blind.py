import sys; sys.path.insert(0,'/verif/sa'); sys.setrecursionlimit(30000)
import conform, summ, compare, collections
spec=conform.load_spec()
by=collections.defaultdict(lambda:[0,0,0]); lst=[]
for q,fs in spec["funcs"].items():
    m=q.split(":")[0]
    for k,v in summ.unpack_facts(fs).items():
        by[m][0]+=1
        if v is None: by[m][2]+=1; lst.append((m,q,k,"big"))
        else:
            x=v
            if compare.has_unknown(x):
                ops=collections.Counter()
                def w(y):
                    if y.op in compare.OPAQUE: ops[y.op+(":"+str(y.args[0])[:30] if y.op=="?" else "")]+=1
                    for a in y.args:
                        if isinstance(a,summ.N): w(a)
                w(x) if x.size<3000 else None
                by[m][1]+=1; lst.append((m,q,k,dict(ops)))
for m,v in sorted(by.items()): print(m,v)
for l in lst: print(l[1:],) if len(sys.argv)>1 and l[0].startswith(sys.argv[1]) else None
