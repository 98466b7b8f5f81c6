import ast,sys
for f in sys.argv[1:]:
    src=open(f).read()
    t=ast.parse(src)
    for n in ast.walk(t):
        if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module)) and n.body and isinstance(n.body[0],ast.Expr) and isinstance(getattr(n.body[0],'value',None),ast.Constant):
            n.body=n.body[1:] or [ast.Pass()]
    print("#####",f); print(ast.unparse(t))
