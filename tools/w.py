# print source w/o docstrings/comments, compressed
import sys,tokenize,io,re,ast
f=sys.argv[1]
src=open(f).read()
tree=ast.parse(src)
skip=set()
for n in ast.walk(tree):
    if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module)):
        for b in n.body:
            if isinstance(b,ast.Expr) and isinstance(b.value,ast.Constant) and isinstance(b.value.value,str):
                skip.update(range(b.lineno,b.end_lineno+1))
a=int(sys.argv[2]) if len(sys.argv)>2 else 1; b=int(sys.argv[3]) if len(sys.argv)>3 else 10**9
for i,l in enumerate(src.split('\n'),1):
    if i<a or i>b or i in skip: continue
    s=l.strip()
    if not s or s.startswith('#') or s.startswith('__') and '=' in s or s.startswith(('import ','from ')): continue
    print(i,re.sub(r'^( +)',lambda m:' '*(len(m.group(1))//4),l.rstrip()))
