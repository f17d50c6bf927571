import sys,re
def sub(f, old, new, n=1):
    s=open(f).read()
    assert s.count(old)==n, (f, old, s.count(old))
    open(f,'w').write(s.replace(old,new))
