#!/usr/bin/env python3
"""Sensitivity (bug-like edits) and robustness (behaviour-preserving edits) of one check, on the source of the functions it analyses.
usage: mutate.py PROP file.py[:Qual.name[,Qual2]] [--refactor] [--max N] [--show status]
Not part of any registered check; works on scratch copies under /tmp only."""
import ast, copy, io, os, random, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = '/repo'


def functions(tree, quals):
    out = []
    def rec(body, pre):
        for n in body:
            if isinstance(n, ast.ClassDef):
                rec(n.body, pre + n.name + '.')
            elif isinstance(n, ast.FunctionDef):
                q = pre + n.name
                if not quals or q in quals or any(q.startswith(x + '.') for x in quals):
                    out.append((q, n))
    rec(tree.body, '')
    return out


def is_doc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str)


class Site:
    pass


def bug_mutants(fn):
    """yield (description, apply(fn_copy_node)) working on node paths."""
    nodes = [n for n in ast.walk(fn)]
    names = sorted({n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} - {'self', 'np', 'torch', 'super', 'len', 'range', 'max', 'min'})
    attrs = sorted({n.attr for n in nodes if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self'})
    rnd = random.Random(7)
    for i, n in enumerate(nodes):
        L = getattr(n, 'lineno', 0)
        if isinstance(n, ast.BinOp):
            alts = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Mod], ast.Mod: [ast.FloorDiv], ast.MatMult: []}.get(type(n.op), [])
            for a in alts:
                yield 'L%d binop %s->%s' % (L, type(n.op).__name__, a.__name__), i, lambda x, a=a: setattr(x, 'op', a())
            if isinstance(n.op, (ast.Mult, ast.Add, ast.Sub)):
                yield 'L%d drop right operand' % L, i, lambda x: ('replace', x.left)
                if not isinstance(n.op, ast.Sub):
                    yield 'L%d drop left operand' % L, i, lambda x: ('replace', x.right)
        if isinstance(n, ast.AugAssign):
            a = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}.get(type(n.op))
            if a:
                yield 'L%d augop' % L, i, lambda x, a=a: setattr(x, 'op', a())
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            alts = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn]}.get(type(n.ops[0]), [])
            for a in alts:
                yield 'L%d cmp %s->%s' % (L, type(n.ops[0]).__name__, a.__name__), i, lambda x, a=a: setattr(x, 'ops', [a()])
        if isinstance(n, ast.BoolOp):
            yield 'L%d and/or' % L, i, lambda x: setattr(x, 'op', ast.Or() if isinstance(x.op, ast.And) else ast.And())
            yield 'L%d drop bool operand' % L, i, lambda x: ('replace', x.values[0])
        if isinstance(n, (ast.If, ast.IfExp)):
            yield 'L%d negate if' % L, i, lambda x: setattr(x, 'test', ast.UnaryOp(ast.Not(), x.test))
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            yield 'L%d const %r+1' % (L, n.value), i, lambda x: setattr(x, 'value', x.value + 1)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield 'L%d bool flip' % L, i, lambda x: setattr(x, 'value', not x.value)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            yield 'L%d drop unary' % L, i, lambda x: ('replace', x.operand)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and len(names) > 1:
            o = rnd.choice([x for x in names if x != n.id])
            yield 'L%d name %s->%s' % (L, n.id, o), i, lambda x, o=o: setattr(x, 'id', o)
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and len(attrs) > 1:
            o = rnd.choice([x for x in attrs if x != n.attr])
            yield 'L%d attr %s->%s' % (L, n.attr, o), i, lambda x, o=o: setattr(x, 'attr', o)
        if isinstance(n, ast.Call):
            if len(n.args) >= 2:
                yield 'L%d swap args' % L, i, lambda x: setattr(x, 'args', [x.args[1], x.args[0]] + x.args[2:])
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'detach', 'clone', 'squeeze', 'unsqueeze', 'int', 'astype') :
                yield 'L%d drop .%s()' % (L, n.func.attr), i, lambda x: ('replace', x.func.value)
            if n.keywords and n.keywords[0].arg:
                yield 'L%d drop kwarg %s' % (L, n.keywords[0].arg), i, lambda x: x.keywords.pop(0) and None
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not is_doc(n):
            yield 'L%d delete stmt' % L, i, lambda x: ('replace', ast.copy_location(ast.Pass(), x))
        if isinstance(n, ast.Return) and n.value is not None and False:
            pass
        if isinstance(n, ast.Break):
            yield 'L%d break->continue' % L, i, lambda x: ('replace', ast.copy_location(ast.Continue(), x))


class Repl(ast.NodeTransformer):
    def __init__(self, target, new):
        self.t, self.new = target, new

    def visit(self, n):
        if n is self.t:
            return self.new
        return self.generic_visit(n)


def apply_bug(tree, q, i, fnc):
    t = copy.deepcopy(tree)
    fn = dict(functions(t, None))[q]
    nodes = list(ast.walk(fn))
    r = fnc(nodes[i])
    if isinstance(r, tuple) and r[0] == 'replace':
        Repl(nodes[i], r[1]).visit(t)
    ast.fix_missing_locations(t)
    return ast.unparse(t)


# ------------------------------------------------------------ behaviour preserving
def params(fn):
    a = fn.args
    return {x.arg for x in a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}


def locals_of(fn):
    args = params(fn)
    st = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    return st - args


def r_rename(fn):
    ls = locals_of(fn)
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in ls:
            n.id = n.id + '_renamed'
    return bool(ls)


def r_return_temp(fn):
    ch = False
    class V(ast.NodeTransformer):
        def visit_Return(self, n):
            nonlocal ch
            if n.value is not None:
                ch = True
                return [ast.Assign([ast.Name('result_', ast.Store())], n.value), ast.Return(ast.Name('result_', ast.Load()))]
            return n
    V().visit(fn)
    return ch


def r_flip_if(fn):
    ch = False
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and n.orelse:
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
            ch = True
        elif isinstance(n, ast.IfExp):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
            ch = True
    return ch


def r_aug(fn):
    ch = False
    class V(ast.NodeTransformer):
        def visit_AugAssign(self, n):
            nonlocal ch
            if isinstance(n.target, (ast.Name,)) or isinstance(n.target, ast.Attribute) or isinstance(n.target, ast.Subscript):
                ch = True
                l = copy.deepcopy(n.target)
                l.ctx = ast.Load()
                return ast.Assign([n.target], ast.BinOp(l, n.op, n.value))
            return n
    V().visit(fn)
    return ch


def r_cmp_flip(fn):
    ch = False
    m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq}
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in m:
            n.left, n.comparators = n.comparators[0], [n.left]
            n.ops = [m[type(n.ops[0])]()]
            ch = True
    return ch


def r_commute(fn):
    ch = False
    for n in ast.walk(fn):
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.Add)) and not any(isinstance(x, (ast.List, ast.Tuple)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right)):
            n.left, n.right = n.right, n.left
            ch = True
    return ch


def r_argtemp(fn):
    """every non-trivial call argument of a statement gets a temporary"""
    ch = False
    k = [0]
    class V(ast.NodeTransformer):
        def stmt(self, s):
            nonlocal ch
            pre = []
            if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) and isinstance(getattr(s, 'value', None), ast.Call):
                c = s.value
                for j, a in enumerate(c.args):
                    if isinstance(a, (ast.BinOp, ast.Call, ast.Subscript, ast.Attribute)):
                        nm = 'tmp%d_' % k[0]
                        k[0] += 1
                        pre.append(ast.Assign([ast.Name(nm, ast.Store())], a))
                        c.args[j] = ast.Name(nm, ast.Load())
                        ch = True
            return pre + [s]
        def body(self, b):
            out = []
            for s in b:
                for f in ('body', 'orelse', 'finalbody'):
                    if getattr(s, f, None) and not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                        setattr(s, f, self.body(getattr(s, f)))
                out += self.stmt(s)
            return out
    fn.body = V().body(fn.body)
    return ch


def r_binop_temp(fn):
    """left operand of each assignment's binop into a temporary"""
    ch = False
    k = [0]
    def body(b):
        nonlocal ch
        out = []
        for s in b:
            for f in ('body', 'orelse', 'finalbody'):
                if getattr(s, f, None) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, f, body(getattr(s, f)))
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.BinOp) and not isinstance(s.value.left, (ast.Name, ast.Constant)):
                nm = 'part%d_' % k[0]
                k[0] += 1
                out.append(ast.Assign([ast.Name(nm, ast.Store())], s.value.left))
                s.value.left = ast.Name(nm, ast.Load())
                ch = True
            out.append(s)
        return out
    fn.body = body(fn.body)
    return ch


def r_early(fn):
    """if c: A (last stmt, returns nothing) -> if not c: return; A ; and if/else return flattening"""
    ch = False
    b = fn.body
    if b and isinstance(b[-1], ast.If) and not b[-1].orelse and not any(isinstance(x, ast.Return) and x.value is not None for x in ast.walk(fn)):
        s = b[-1]
        fn.body = b[:-1] + [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Return(None)], [])] + s.body
        ch = True
    elif b and isinstance(b[-1], ast.If) and b[-1].orelse and isinstance(b[-1].body[-1], ast.Return):
        s = b[-1]
        fn.body = b[:-1] + [ast.If(s.test, s.body, [])] + s.orelse
        ch = True
    return ch


def r_dead(fn):
    i = 1 if fn.body and is_doc(fn.body[0]) else 0
    fn.body.insert(i, ast.Assign([ast.Name('unused_', ast.Store())], ast.Constant(0)))
    return True


def r_range_while(fn):
    """for i in range(n): body  ->  i = 0; while i < n: body; i += 1   (no continue, loop var not reused)"""
    ch = False
    def body(b):
        nonlocal ch
        out = []
        for s in b:
            for f in ('body', 'orelse', 'finalbody'):
                if getattr(s, f, None) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, f, body(getattr(s, f)))
            if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and len(s.iter.args) == 1 \
                    and not any(isinstance(x, ast.Continue) for x in ast.walk(s)) and not s.orelse:
                i = s.target.id
                out.append(ast.Assign([ast.Name('n_' + i, ast.Store())], s.iter.args[0]))
                out.append(ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0)))
                out.append(ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [ast.Name('n_' + i, ast.Load())]), s.body + [ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], []))
                ch = True
            else:
                out.append(s)
        return out
    fn.body = body(fn.body)
    return ch


def r_zip_index(fn):
    """for a, b in zip(x, y): -> for i_ in range(len(x)): a = x[i_]; b = y[i_]"""
    ch = False
    for s in ast.walk(fn):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'zip' and isinstance(s.target, ast.Tuple) and all(isinstance(a, (ast.Name, ast.Attribute)) for a in s.iter.args):
            xs = s.iter.args
            s.body = [ast.Assign([t], ast.Subscript(copy.deepcopy(x), ast.Name('i_', ast.Load()), ast.Load())) for t, x in zip(s.target.elts, xs)] + s.body
            s.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [copy.deepcopy(xs[0])], [])], [])
            s.target = ast.Name('i_', ast.Store())
            ch = True
    return ch


def r_comp_loop(fn):
    """x = [e for v in it] -> x = list(); for v in it: x.append(e)"""
    ch = False
    def body(b):
        nonlocal ch
        out = []
        for s in b:
            for f in ('body', 'orelse', 'finalbody'):
                if getattr(s, f, None) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, f, body(getattr(s, f)))
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and not s.value.generators[0].ifs and isinstance(s.targets[0], ast.Name) \
                    and not any(isinstance(x, ast.Name) and x.id == s.targets[0].id for x in ast.walk(s.value)):
                g = s.value.generators[0]
                out.append(ast.Assign(s.targets, ast.Call(ast.Name('list', ast.Load()), [], [])))
                out.append(ast.For(g.target, g.iter, [ast.Expr(ast.Call(ast.Attribute(ast.Name(s.targets[0].id, ast.Load()), 'append', ast.Load()), [s.value.elt], []))], []))
                ch = True
            else:
                out.append(s)
        return out
    fn.body = body(fn.body)
    return ch


def uses(stmts, ctx):
    return {n.id for s in stmts for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ctx)}


def extract(cls, fn, lo, hi, path):
    """Move statements lo:hi of block `path` into a helper method. Returns False when not safely possible."""
    blk = fn.body
    for i, f in path:
        blk = getattr(blk[i], f)
    part = blk[lo:hi]
    if not part or any(is_doc(s) for s in part):
        return False
    if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda)) for s in part for x in ast.walk(s)):
        return False
    if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' for s in part for x in ast.walk(s)):
        return False
    scope = locals_of(fn) | params(fn)
    if fn.args.vararg: scope.add(fn.args.vararg.arg)
    if fn.args.kwarg: scope.add(fn.args.kwarg.arg)
    reads = uses(part, ast.Load) & scope
    reads |= {n.target.id for s in part for n in ast.walk(s) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
    writes = uses(part, ast.Store) & scope
    # names surely defined before: any name read must be assigned before in straight line (approximation: assigned in earlier stmts or args)
    comp = {n.id for s in part for c in ast.walk(s) if isinstance(c, ast.comprehension) for n in ast.walk(c.target) if isinstance(n, ast.Name)}
    before = params(fn)
    b = fn.body
    def collect(b, upto):
        for s in b[:upto]:
            before.update(uses([s], ast.Store))
    cur = fn.body
    for i, f in path:
        collect(cur, i)
        before.update(uses([cur[i].target] if hasattr(cur[i], 'target') else [], ast.Store))
        cur = getattr(cur[i], f)
    collect(cur, lo)
    if fn.args.vararg: before.add(fn.args.vararg.arg)
    if fn.args.kwarg: before.add(fn.args.kwarg.arg)
    reads = (reads - comp) & before
    # conditional writes of names not defined before are unsafe
    after_reads = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            after_reads.add(n.id)
    writes = sorted((writes - comp))
    straight = {n.id for s in part if isinstance(s, (ast.Assign, ast.AugAssign)) for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    for x in writes:
        if x not in straight and x not in before:
            return False
    ps = sorted((reads | {w for w in writes if w in before and w not in straight}) - {'self'})
    is_m = fn.args.args and fn.args.args[0].arg == 'self' and cls is not None
    args = ([ast.arg('self')] if is_m else []) + [ast.arg(p) for p in ps]
    outs = [w for w in writes]
    ret = [ast.Return(ast.Name(outs[0], ast.Load()) if len(outs) == 1 else ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load()))] if outs else []
    h = ast.FunctionDef('_extracted_helper', ast.arguments([], args, None, [], [], None, []), [copy.deepcopy(s) for s in part] + ret, [], None)
    call = ast.Call(ast.Attribute(ast.Name('self', ast.Load()), '_extracted_helper', ast.Load()) if is_m else ast.Name('_extracted_helper', ast.Load()), [ast.Name(p, ast.Load()) for p in ps], [])
    if outs:
        tgt = ast.Name(outs[0], ast.Store()) if len(outs) == 1 else ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store())
        new = ast.Assign([tgt], call)
    else:
        new = ast.Expr(call)
    blk[lo:hi] = [new]
    return h


REFACTORS = [r_rename, r_return_temp, r_flip_if, r_aug, r_cmp_flip, r_commute, r_argtemp, r_binop_temp, r_early, r_dead, r_range_while, r_zip_index, r_comp_loop]


def all_blocks(fn):
    def rec(b, path):
        yield path, len(b)
        for i, s in enumerate(b):
            for f in ('body', 'orelse'):
                if getattr(s, f, None) and isinstance(s, (ast.If, ast.For, ast.While, ast.With)):
                    yield from rec(getattr(s, f), path + ((i, f),))
    yield from rec(fn.body, ())


def refactor_mutants(tree, quals):
    for q, fn in functions(tree, quals):
        for r in REFACTORS:
            t = copy.deepcopy(tree)
            f = dict(functions(t, None))[q]
            if r(f):
                ast.fix_missing_locations(t)
                yield '%s %s' % (q, r.__name__), ast.unparse(t)
        rnd = random.Random(3)
        cands = []
        for path, n in all_blocks(fn):
            for lo in range(n):
                for hi in range(lo + 1, min(n, lo + 6) + 1):
                    cands.append((path, lo, hi))
        rnd.shuffle(cands)
        cnt = 0
        for path, lo, hi in cands:
            t = copy.deepcopy(tree)
            cls = None
            f = dict(functions(t, None))[q]
            if '.' in q:
                cls = [c for c in ast.walk(t) if isinstance(c, ast.ClassDef) and f in c.body][0]
            if any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in f.decorator_list):
                cls = None
                if not (f.args.args and f.args.args[0].arg == 'self') and '.' in q and any(d.id == 'classmethod' for d in f.decorator_list if isinstance(d, ast.Name)):
                    continue
            h = extract(cls, f, lo, hi, path)
            if h is False:
                continue
            if cls is not None and f.args.args and f.args.args[0].arg == 'self':
                cls.body.append(h)
            else:
                t.body.append(h)
            ast.fix_missing_locations(t)
            yield '%s extract %s[%d:%d]' % (q, path, lo, hi), ast.unparse(t)
            cnt += 1
            if cnt >= 6:
                break


_dir = None


def init(base):
    global _dir
    _dir = tempfile.mkdtemp(prefix='mut', dir=base)
    shutil.copytree(REPO + '/mushroom_rl', _dir + '/mushroom_rl', ignore=shutil.ignore_patterns('__pycache__', '*.pyc', '*.xml', '*.stl', '*.STL'))


def work(job):
    prop, rel, desc, src = job
    p = os.path.join(_dir, rel)
    old = open(os.path.join(REPO, rel)).read()
    with open(p, 'w') as fh:
        fh.write(src)
    try:
        out = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), prop, '--no-write', '-v', '--repo', _dir], capture_output=True, text=True, timeout=300, env=dict(os.environ, SA_ROWS=desc.split(' ')[0].split('.')[0] if os.environ.get('FAST') else ''))
        rc, txt = out.returncode, out.stdout + out.stderr
    except subprocess.TimeoutExpired:
        rc, txt = 99, 'timeout'
    with open(p, 'w') as fh:
        fh.write(old)
    return desc, rc, txt


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('target', nargs='+')
    ap.add_argument('--refactor', action='store_true')
    ap.add_argument('--max', type=int, default=400)
    ap.add_argument('--show', default='')
    ap.add_argument('--seed', type=int, default=1)
    a = ap.parse_args()
    jobs = []
    for tgt in a.target:
        rel, _, qs = tgt.partition(':')
        if not rel.startswith('mushroom_rl'):
            rel = 'mushroom_rl/' + rel
        quals = set(qs.split(',')) if qs else None
        tree = ast.parse(open(os.path.join(REPO, rel)).read())
        if a.refactor:
            for d, src in refactor_mutants(tree, quals):
                jobs.append((a.prop, rel, d, src))
        else:
            for q, fn in functions(tree, quals):
                for d, i, f in bug_mutants(fn):
                    try:
                        jobs.append((a.prop, rel, q + ' ' + d, apply_bug(tree, q, i, f)))
                    except Exception as e:
                        pass
    random.Random(a.seed).shuffle(jobs)
    jobs = jobs[:a.max]
    base = tempfile.mkdtemp(prefix='mutbase')
    res = {}
    bl = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), a.prop, '--no-write'], capture_output=True, text=True).stdout
    base_und = int(bl.split(' undecided')[0].split()[-1]) if not os.environ.get('FAST') else 0
    try:
        with ProcessPoolExecutor(8, initializer=init, initargs=(base,)) as ex:
            for desc, rc, txt in ex.map(work, jobs):
                m = [l for l in txt.splitlines() if 'undecided' in l and 'obligations' in l]
                und = int(m[0].split(' undecided')[0].split()[-1]) if m else -1
                kind = {0: 'quiet', 1: 'ALARM'}.get(rc, 'noanswer%s' % rc)
                if kind == 'quiet' and und > base_und:
                    kind = 'undecided'
                res.setdefault(kind, []).append((desc, txt))
    finally:
        shutil.rmtree(base)
    print({k: len(v) for k, v in res.items()})
    for k in a.show.split(','):
        for d, t in res.get(k, []):
            us = [l for l in t.splitlines() if l.startswith('   undecided')]
            print(k, '|', d, '|', ([l for l in t.strip().splitlines() if not l.startswith('KNOWN')] or [''])[0][:900] if k == 'ALARM' or k.startswith('no') else (us[0].split("'why': ")[-1][:160] if us else ''))


main()
