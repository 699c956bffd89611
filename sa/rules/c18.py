"""Save/load.  (1) Completeness: every attribute a saveable object writes while it is constructed and reads later is registered for saving or
rebuilt after loading (effects of the constructor chain, of the registrations in it and of _post_load, found by abstract interpretation of each
concrete class).  (2) No registered attribute became optional (or dropped) that was always saved, and the storage method suits its value.
(3) The archive protocol and every _post_load are refined against sa/specs/saving.py."""
import ast
import json
import os
from ..rl import *
from ..spec import *
from ..interp import abstract

MIN_OBLIGATIONS = 100
R = 'save'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PICKLED = {'pickle', 'primitive', 'torch'}


def level(m):
    return 'never' if m.startswith('none') else ('full' if m.endswith('!') else 'always')


def self_reads(prog, c):
    out = {}
    for m in prog.mro(c):
        if isinstance(m, Class):
            for f in list(m.methods.values()) + list(m.setters.values()):
                if f.name != '__init__':
                    for x in ast.walk(f.node):
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and isinstance(x.ctx, ast.Load):
                            out.setdefault(x.attr, m.name + '.' + f.name)
    return out


def outside_reads(prog):
    out = {}
    for m in prog.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and not (isinstance(x.value, ast.Name) and x.value.id == 'self'):
                out.setdefault(x.attr, '%s:%d' % (m.rel, x.lineno))
    return out


def class_attrs(prog, c):
    out = set()
    for m in prog.mro(c):
        if isinstance(m, Class):
            for x in m.node.body:
                if isinstance(x, ast.Assign):
                    out |= {t.id for t in x.targets if isinstance(t, ast.Name)}
                elif isinstance(x, ast.AnnAssign) and x.value is not None and isinstance(x.target, ast.Name):
                    out.add(x.target.id)
    return out


def saveables(prog):
    ser = prog.need_cls('Serializable')
    return sorted([c for c in prog.classes.values() if c is not ser and ser in prog.mro(c)], key=lambda c: c.qual)


def construction(ctx, c):
    """(constructor, attributes it writes, {registered attribute: storage method or None}, complete)"""
    prog = ctx.prog
    f = prog.find(c, '__init__')
    if f is None:
        return None
    I = Interp(prog, Policy(opaque=['_add_save_attr']))
    r = I.run(f, c)
    ctx.used(I)
    if r.state is None:
        return None
    s = mk('self', c.qual)
    W = {k: r.content(v) for (o, k), v in r.state.heap.items() if o is s}
    S, whole = {}, True
    for e in flat(r.events):
        if e.kind == 'call' and e.name == '_add_save_attr' and e.recv is s:
            for k, v in e.kw.items():
                if k == '**':
                    whole = False
                elif v.op == 'const' and isinstance(v.args[1], str):
                    S[k] = v.args[1]
                else:
                    S[k] = None
    return f, W, S, whole


def restored(ctx, c):
    f = ctx.prog.find(c, '_post_load')
    if f is None:
        return set(), True
    if abstract(f.node):
        return set(), False
    I = Interp(ctx.prog, Policy())
    r = I.run(f, c)
    ctx.used(I)
    s = mk('self', c.qual)
    out = {k for (o, k) in r.state.heap if o is s} if r.state is not None else set()
    return out, True


def value_kind(ctx, v):
    """'torch' | 'numpy' | 'object' (saveable) | None for a constructed attribute value."""
    v = T.strip(v) if v.op == 'call' and T.call_parts(v)[0] == 'meth' else v
    if v.op == 'new':
        c = ctx.prog.classes.get(v.args[0])
        return 'object' if c is not None and ctx.prog.need_cls('Serializable') in ctx.prog.mro(c) else None
    if v.op == 'call':
        k, nm, a, kw = T.call_parts(v)
        if k == 'ext' and nm.startswith('torch.') and nm.split('.')[-1] in ('zeros', 'ones', 'empty', 'tensor', 'as_tensor', 'arange', 'zeros_like', 'ones_like', 'full', 'rand', 'randn', 'from_numpy', 'eye', 'linspace', 'stack', 'concatenate', 'cat'):
            return 'torch'
        if k == 'ext' and nm.startswith('numpy.') and nm.split('.')[-1] in ('zeros', 'ones', 'empty', 'array', 'arange', 'zeros_like', 'ones_like', 'full', 'eye', 'linspace'):
            return 'numpy'
    return None


def completeness(ctx):
    prog = ctx.prog
    base = json.load(open(os.path.join(HERE, 'specs', 'saved.json')))
    outside = outside_reads(prog)
    for c in saveables(prog):
        def one(ctx, c=c):
            got = construction(ctx, c)
            if got is None:
                return
            f, W, S, whole = got
            P, ready = restored(ctx, c)
            if not ready:
                return
            reads = self_reads(prog, c)
            ca = class_attrs(prog, c)
            old = base.get(c.name, {})
            for k in sorted(W):
                if k == '_save_attributes' or k in ca:
                    continue
                where = reads.get(k) or (outside.get(k) if not k.startswith('_') else None)
                if where is None:
                    continue
                if k in S or k in P:
                    ctx.ok(R, '%s.%s kept' % (c.name, k), 'registered or rebuilt')
                elif whole:
                    ctx.bad(R, '%s.%s kept' % (c.name, k), f.loc, 'attribute %s is set by the constructor and read in %s, but neither saved nor rebuilt after loading' % (k, where))
                else:
                    ctx.unk(R, '%s.%s kept' % (c.name, k), 'registration not fully seen')
            for k, m in sorted(S.items()):
                if m is None:
                    continue
                was = old.get(k)
                used = k in reads or k in outside
                if was is None:
                    if level(m) == 'never' and k in W and W[k] is not NONE and k in reads and k not in P:
                        ctx.unk(R, '%s.%s level' % (c.name, k), 'new attribute never saved')
                elif level(m) != level(was):
                    order = ['never', 'full', 'always']
                    lost = order.index(level(m)) < order.index(level(was))
                    if lost and used and k not in P:
                        ctx.bad(R, '%s.%s level' % (c.name, k), f.loc, 'attribute %s is %s saved (%r), required %s (%r)' % (k, level(m), m, level(was), was))
                    else:
                        ctx.unk(R, '%s.%s level' % (c.name, k), 'saved more often than specified')
                else:
                    ctx.ok(R, '%s.%s level' % (c.name, k), level(m))
                mm = m.rstrip('!')
                known = mm in ('none', 'primitive') or prog.find(c, '_save_' + mm) is not None
                if not known:
                    ctx.bad(R, '%s.%s method' % (c.name, k), f.loc, 'unknown storage method %r' % m)
                    continue
                vk = value_kind(ctx, W[k]) if k in W else None
                w = was.rstrip('!') if was else None
                if mm in ('numpy', 'json') and vk in ('torch', 'object') or mm == 'mushroom' and vk in ('torch', 'numpy'):
                    ctx.bad(R, '%s.%s method' % (c.name, k), f.loc, 'storage method %r does not restore a value of kind %s' % (m, vk))
                elif w is not None and mm != w and mm != 'none' and not (mm in PICKLED) and w != 'none':
                    ctx.bad(R, '%s.%s method' % (c.name, k), f.loc, 'storage method %r does not restore what %r did' % (m, was))
                else:
                    ctx.ok(R, '%s.%s method' % (c.name, k), m)
        ctx.part(c.qual, one)


def attrs_written(f):
    """(attributes a method stores or fills, line of each)"""
    out = {}
    for x in ast.walk(f.node):
        t = None
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
            t = x
        elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
            t = x.value
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'extend', 'add', 'clear', 'insert', 'pop', 'update'):
            t = x.func.value
        while isinstance(t, ast.Subscript):
            t = t.value
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
            out.setdefault(t.attr, x.lineno)
    return out


def coherence(ctx):
    """Bookkeeping that changes together with an optionally saved store must be optional too, or be rebuilt after loading without the store."""
    prog = ctx.prog
    called = set()              # methods used outside construction
    for m in prog.modules.values():
        for d in ast.walk(m.tree):
            if isinstance(d, ast.FunctionDef) and d.name != '__init__':
                called |= {x.attr for x in ast.walk(d) if isinstance(x, ast.Attribute)}
    for c in saveables(prog):
        def one(ctx, c=c):
            got = construction(ctx, c)
            if got is None or not got[3]:
                return
            f, W, S, whole = got
            P, ready = restored(ctx, c)
            opt = {k for k, m in S.items() if m and level(m) == 'full'}
            if not opt or not ready:
                return
            for n, m in sorted(c.methods.items()):
                if n in ('__init__', '_post_load') or n.startswith('_') and n not in called:
                    continue
                w = attrs_written(m)
                store = sorted(opt & set(w))
                if not store:
                    continue
                for k in sorted(w):
                    if k not in S or k in opt or S[k] is None or level(S[k]) != 'always' or k in P or k not in W:
                        continue
                    name = '%s.%s follows %s' % (c.name, k, store[0])
                    ctx.bad(R, name, '%s:%d' % (m.module.rel, w[k]), '%s.%s changes %s together with %s, which is saved only on a full save: after loading without it, %s describes samples that no longer exist' % (c.name, n, k, store[0], k))
        ctx.part(c.qual + ' coherence', one)


def check(ctx):
    coherence(ctx)
    completeness(ctx)
    P = Policy(opaque=['load_zip', '_load_list', 'save_zip'])
    store = ('open', 'save', 'dump', 'write', 'dumps', 'save_zip', '_save_pickle')
    opts = {n: dict(policy=P) for n in ('Serializable.load_zip', 'Serializable._load_list', 'Serializable.load', 'Serializable.save_zip', 'Serializable.save', 'Serializable._load_mushroom', 'Serializable._save_mushroom')}
    for n in spec_module('saving').functions:
        if n.startswith('Serializable__save_') and n != 'Serializable__save_attributes':
            opts.setdefault('Serializable._save_' + n[len('Serializable__save_'):], {}).update(calls=store)
    opts['Serializable.load_zip'].update(calls=('setattr', '__call__', '_post_load', '__new__'))
    opts['Serializable.save_zip'].update(calls=('__call__', 'open', 'dump'))
    opts['Serializable.save'].update(calls=('save_zip', 'mkdir', 'ZipFile'))
    auto(ctx, R, 'saving', opts=opts)
