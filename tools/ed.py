import sys
def ed(f, *subs):
    p="/tmp/wt/"+f; t=open(p).read()
    for o,n in subs:
        assert t.count(o)==1,(f,o,t.count(o))
        t=t.replace(o,n)
    open(p,"w").write(t)
