"""mkspec.py FILE Class[.m1,m2] ... : emit specification functions (stripped copies) to stdout"""
import ast, sys
f=sys.argv[1]; tree=ast.parse(open('/repo/'+f).read())
def strip(n):
    for x in ast.walk(n):
        if isinstance(x,(ast.FunctionDef,ast.ClassDef)) and x.body and isinstance(x.body[0],ast.Expr) and isinstance(x.body[0].value,ast.Constant) and isinstance(x.body[0].value.value,str):
            x.body=x.body[1:] or [ast.Pass()]
    return n
pkg=f[:-3].replace('/','.').split('.')
for n in tree.body:
    if isinstance(n,ast.ImportFrom):
        if n.level:
            n.module='.'.join(pkg[:-n.level]+([n.module] if n.module else [])); n.level=0
        print(ast.unparse(n))
    elif isinstance(n,ast.Import): print(ast.unparse(n))
print('from %s import %s' % ('.'.join(pkg), ', '.join(n.name for n in tree.body if isinstance(n,ast.ClassDef)))) if any(isinstance(n,ast.ClassDef) for n in tree.body) else None
want={}
for a in sys.argv[2:]:
    c,_,m=a.partition('.'); want[c]=m.split(',') if m else None
def drop_saves(fn):
    class D(ast.NodeTransformer):
        def visit_Expr(self,e):
            if isinstance(e.value,ast.Call) and isinstance(e.value.func,ast.Attribute) and e.value.func.attr=='_add_save_attr': return None
            return e
    D().visit(fn); fn.body=fn.body or [ast.Pass()]
    return fn
for n in tree.body:
    if isinstance(n,ast.FunctionDef) and (n.name in want):
        n.decorator_list=[]; print('\n\n'+ast.unparse(strip(n)))
    if isinstance(n,ast.ClassDef) and n.name in want:
        for m in n.body:
            if isinstance(m,ast.FunctionDef) and (want[n.name] is None or m.name in want[n.name]):
                if any(isinstance(d,ast.Attribute) and d.attr=='setter' for d in m.decorator_list): m.name+='_setter'
                m.decorator_list=[]; m.name=n.name+'_'+m.name
                print('\n\n'+ast.unparse(drop_saves(strip(m))))
