"""Non-interference: for every learning algorithm the value graph of each quantity it writes (regression targets,
table entries, weights, priorities, advantages) is specialised to a terminal transition (absorbing flag set) and
must not depend on the successor state of that transition; for distributional targets the projected support must
not depend on the atoms."""
from ..rl import *
from ..spec import Eraser
from ..interp import abstract

MIN_OBLIGATIONS = 20


def roots(n):
    """(successor-state nodes, absorbing nodes, last nodes) of sample batches occurring in n."""
    nxt, ab, la = set(), set(), set()
    for x in T.walk(n):
        if x.op == 'index' and x.args[1].op == 'const' and x.args[1].args[0] == 'int':
            b = x.args[0]
            ok = False
            if b.op == 'call':
                k, nm, a, kw = T.call_parts(b)
                ok = k == 'meth' and nm in ('parse', 'item', 'get')
            elif b.op == 'elem' and b.args[0].op == 'param':
                ok = True
            if ok:
                i = x.args[1].args[1]
                (nxt if i == 3 else ab if i == 4 else la if i == 5 else set()).add(x)
    return nxt, ab, la


def terminal(n, extra=()):
    """n specialised to a terminal transition."""
    nxt, ab, la = roots(n)
    fl = {x.id for x in ab | la | set(extra)}

    def f(x):
        if x.id in fl:
            return TRUE
        if x.op in ('index', 'elem') and x.args[0].id in fl:
            return TRUE
        if x.op == 'call' and x.args[0].op in ('meth', 'ext'):
            k, nm, a, kw = T.call_parts(x)
            base = T.strip(a[0]) if a else None
            # the flags of one field, reshaped or converted
            while base is not None and base.op == 'call' and T.call_parts(base)[0] == 'meth' and T.call_parts(base)[1] in T.TRANSPARENT_M:
                base = T.call_parts(base)[2][0]
            if base is not None and (base.id in fl or base.op in ('index', 'elem') and base.args[0].id in fl):
                if nm.split('.')[-1] in ('any', 'reshape', 'int', 'float', 'to', 'type', 'astype', 'squeeze', 'unsqueeze', 'bool', 'ravel', 'flatten', 'view'):
                    return TRUE
        return None
    return T.subst(n, f)


def sinks(r):
    s = mk('self', r.cls.qual)
    for e in flat(r.events):
        if e.kind == 'call' and e.name in ('fit', 'set_weights', 'update', 'backward', 'step') and e.guard is not FALSE:
            for i, a in enumerate(e.args):
                yield '%s(%s)' % (e.name, T.show(e.recv, 6)), a, '%s:%s' % (e.file, e.line), e
            if e.name == 'backward' and e.recv is not None:
                yield 'backward', e.recv, '%s:%s' % (e.file, e.line), e
    # what is left in the agent when the update is over
    if r.state is not None:
        for (o, k), v in r.state.heap.items():
            if o is s and k != 'next_action':
                yield 'write %s' % k, r.content(v), r.func.loc, None
        for ident in r.state.over:
            if ident.op in ('attr', 'index') and any(x.op == 'self' for x in T.walk(ident)) and not ident.op == 'obj':
                yield 'write %s' % T.show(ident), r.content(ident), r.func.loc, None


DISTRIBUTIONAL = ('CategoricalDQN', 'Rainbow')


def check(ctx):
    agents = classes_under(ctx, 'Agent')
    for c in agents:
        f = ctx.prog.find(c, 'fit')
        if f is None or f.cls.name == 'Agent':
            continue
        if any(abstract(ctx.prog.find(c, m).node) for k in ctx.prog.mro(c) if isinstance(k, Class) and k.name != 'Agent' for m in k.methods):
            continue  # completed by its subclasses
        ctx.part(c.name, algorithm, c)
    ctx.part('advantages', advantages)


def algorithm(ctx, c):
    r = run(ctx, c, 'fit', policy=Policy(opaque=['draw_action', '_log_info', 'compute_gae', 'compute_advantage', 'compute_advantage_montecarlo']))
    seen = False
    dist = any(k.name in DISTRIBUTIONAL for k in ctx.prog.mro(c) if isinstance(k, Class))
    done = set()
    for label, v, w, e in sinks(r):
        nxt, ab, la = roots(v)
        g = e.guard if e is not None else TRUE
        if not nxt:
            continue
        if T.contains(v, lambda x: x.op == 'call' and T.call_parts(x)[0] in ('ext', 'meth') and T.call_parts(x)[1].split('.')[-1] in ('compute_gae', 'compute_advantage_montecarlo', 'compute_advantage')):
            continue
        tg = terminal(g)
        if tg is FALSE or T.poly(tg) == {}:
            ctx.ok('terminal-target', '%s %s' % (c.name, label), 'not reached for terminal transitions')
            seen = True
            continue
        if dist:
            continue
        tv = terminal(v)
        cv = T.canon(T.from_poly(T.poly(tv)) if tv.op not in ('tuple', 'list', 'dict') else tv)
        n2 = roots(cv)[0]
        key = '%s %s' % (c.name, label)
        if not n2:
            ctx.verdict(True, 'terminal-target', key, w, '', 'independent of the successor of a terminal transition')
        else:
            ctx.verdict(None if murky(cv) else False, 'terminal-target', key, w, 'for a terminal transition it still depends on the successor state: %s' % T.show(cv)[:300])
        seen = True
    if dist:
        support(ctx, c, r)


def support(ctx, c, r):
    s = mk('self', c.qual)
    found = False
    for e in flat(r.events):
        if e.kind == 'call' and e.name in ('floor', 'ceil') and e.args:
            v = e.args[0]
            at = [x for x in T.walk(v) if is_attr(x, '_a_values')]
            if not at:
                continue
            found = True
            cv = T.canon(terminal(v))
            ctx.verdict(not T.contains(cv, lambda x: is_attr(x, '_a_values')) if not murky(cv) else None, 'terminal-support', '%s %s' % (c.name, e.name),
                        '%s:%s' % (e.file, e.line), 'for a terminal transition the projected support still depends on the atoms: %s' % T.show(cv)[:300],
                        'all mass projected on the reward')
    if not found:
        ctx.unk('terminal-support', c.name, 'projection not recognised')


def advantages(ctx):
    mod = 'mushroom_rl.rl_utils.value_functions'
    P = lambda x: mk('param', x)
    fs = [(n, ctx.prog.func(mod, n)) for n in ('compute_gae', 'compute_advantage', 'compute_advantage_montecarlo')]
    for c in classes_under(ctx, 'Agent'):
        if 'compute_gae' in c.methods:
            fs.append(('compute_gae', c.methods['compute_gae']))
    for name, f in fs:
        if f is None:
            ctx.unk('terminal-advantage', name, 'function not found')
            continue
        I = Interp(ctx.prog, Policy())
        r = I.run(f)
        ctx.used(I)
        ps = [a.arg for a in f.node.args.args]
        ss = P('ss') if 'ss' in ps else P(ps[2])
        flags = [P(x) for x in ps if x in ('absorbing', 'last')]
        # per-element terms: everything stored into the result
        ok = True
        terms = []
        for e in flat(r.events):
            if e.kind == 'setitem':
                terms.append((e.value, e.guard, e))
        if name == 'compute_advantage':
            terms = [(r.ret, TRUE, None)]
        if not terms:
            ctx.unk('terminal-advantage', name, 'no stored element')
            continue
        for k, (v, g, e) in enumerate(terms):
            tg = terminal(g, flags)
            if tg is FALSE or T.poly(tg) == {}:
                continue
            tv = T.canon(terminal(v, flags))
            dep = [x for x in T.walk(tv) if x is ss]
            # the recursion of the return itself
            lvs = []
            if name == 'compute_advantage_montecarlo':
                lvs = [x for x in T.walk(tv) if x.op == 'lv' and x.args[1] == 'env' and T.depends(I.LV.get((x.args[0], x), (NONE, NONE))[0], ss)]
            w = '%s:%s' % (e.file, e.line) if e is not None else f.loc
            ctx.verdict((None if murky(tv) else False) if dep or lvs else True, 'terminal-advantage', '%s#%d' % (f.qual, k), w,
                        'for a terminal step the advantage depends on what follows: %s' % T.show(tv)[:300], 'no successor value at a terminal step')
