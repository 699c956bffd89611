"""Scheduling of the run loop, decided on its value-graph transfer function: the loop condition, the guard of the
learning call and the counters they read are compared with the requested schedule; ordering of record, fit,
callbacks and clear is read off the effect tree; the learning call must be unreachable from evaluation."""
from ..rl import *
from ..spec import refine
from ._core import RunLoop, ENTRY

MIN_OBLIGATIONS = 12


def cond_under(c, facts):
    return T.assume(c, facts)


def threshold(cond, bound, table, op):
    """cond == (X op bound) with X a loop variable expression; returns X or None.
    op 'ge' : X >= bound ; 'lt': X < bound"""
    if op == 'ge':
        if cond.op == 'le' and cond.args[0] is bound:
            return cond.args[1]
        if cond.op == 'eq' and bound in cond.args:
            return cond.args[0] if cond.args[1] is bound else cond.args[1]
        if cond.op == 'not':
            return threshold(cond.args[0], bound, table, 'lt')
        # X > bound - 1
        if cond.op == 'lt' and T.equal(cond.args[0], T.t_bin('sub', bound, T.ONE)):
            return cond.args[1]
    else:
        if cond.op == 'lt' and cond.args[1] is bound:
            return cond.args[0]
        if cond.op == 'not' and cond.args[0].op == 'eq' and bound in cond.args[0].args:
            e = cond.args[0]
            return e.args[0] if e.args[1] is bound else e.args[1]
        if cond.op == 'le' and T.equal(cond.args[1], T.t_bin('sub', bound, T.ONE)):
            return cond.args[0]
    return None


def check(ctx):
    for entry in ENTRY:
        L = RunLoop(ctx, entry)
        n, w = L.name, L.where
        why = L.ready()
        if why:
            ctx.unk('schedule', n, why)
            continue
        S = L.S
        last = S[5]
        p = lambda x: mk('param', x)
        isn = lambda x: T.t_cmp('is', p(x), NONE)
        initn = isn('initial_states')
        # ---- run length
        c = L.loop.cond
        for name, other, inc in (('n_steps', 'n_episodes', T.ONE), ('n_episodes', 'n_steps', None)):
            facts = {isn(name): FALSE, isn(other): TRUE}
            if entry == 'evaluate':
                facts[initn] = TRUE
            cc = cond_under(c, facts)
            X = threshold(cc, p(name), L.table, 'lt')
            if X is None or X not in L.table:
                ctx.verdict(None if murky(cc) or X is not None else False, 'run-length', '%s %s' % (n, name), w, 'the run continues while %s' % cc)
                continue
            ini, nxt = L.table[X]
            ini = T.assume(ini, facts)
            want = T.t_bin('add', X, T.ONE) if inc is not None else T.t_phi(last, T.t_bin('add', X, T.ONE), X)
            ctx.verdict(same(nxt, want) if T.is_const(ini, 0) else False, 'run-length', '%s %s' % (n, name), w,
                        'the run counts %s from %s' % (nxt, ini), 'counts every %s from 0 and stops at the request' % name[2:-1])
        if entry == 'evaluate':
            facts = {isn('n_steps'): TRUE, isn('n_episodes'): TRUE, initn: FALSE}
            cc = cond_under(c, facts)
            X = None
            if cc.op == 'lt' and cc.args[0] in L.table:
                b = cc.args[1]
                ok = b.op == 'call' and T.call_parts(b)[1] == 'builtins.len' and T.call_parts(b)[2][0] is p('initial_states')
                ctx.verdict(True if ok else (None if murky(b) else False), 'run-length', n + ' initial_states', w, 'evaluation from given states runs until %s' % cc)
            else:
                ctx.unk('run-length', n + ' initial_states', 'condition %s' % cc)
            reach = [e for e in flat(L.r.events) if e.kind == 'call' and e.name == 'fit' and e.get('recv') is L.agent and e.guard is not FALSE]
            ctx.verdict(not reach, 'evaluation-never-learns', n, w, 'agent.fit is reachable from evaluation under %s' % [e.guard for e in reach][:1],
                        'no learning call reachable')
            mut = [e for e in flat(L.r.events) if e.kind in ('setattr', 'setprop') and e.obj is L.agent and e.name != 'next_action']
            ctx.verdict(not mut, 'evaluation-leaves-agent', n, w, 'evaluation writes agent attributes %s' % [e.name for e in mut])
            ctx.verdict(not L.clears, 'evaluation-keeps-samples', n, w, 'samples are cleared during evaluation')
            ret = L.r.ret
            ctx.verdict(True if ret is L.appends[0].recv else (None if murky(ret) else False), 'evaluation-returns-samples', n, w, 'evaluate returns %s' % ret)
            continue
        # ---- fit schedule
        if len(L.fits) != 1:
            ctx.verdict(None if len(L.fits) > 1 else False, 'fit-schedule', n, w, '%d fit call sites' % len(L.fits))
            continue
        f = L.fits[0]
        g = L.rel(f)
        for name, other in (('n_steps_per_fit', 'n_episodes_per_fit'), ('n_episodes_per_fit', 'n_steps_per_fit')):
            facts = {isn(name): FALSE, isn(other): TRUE}
            gg = cond_under(g, facts)
            X = threshold(gg, p(name), L.table, 'ge')
            if X is None:
                ctx.verdict(None if murky(gg) or gg.op not in ('le', 'lt', 'eq', 'not', 'const', 'and', 'or') else False, 'fit-schedule', '%s %s' % (n, name), w, 'fit happens under %s' % gg)
                continue
            lvs = [x for x in T.walk(X) if x in L.table and x.args[1] in ('heap', 'env') and not T.depends(L.A, x)]
            good = None
            for lv in lvs:
                ini, nxt = L.table[lv]
                inc = T.t_bin('add', lv, T.ONE)
                want = inc if name == 'n_steps_per_fit' else T.t_phi(last, inc, lv)
                X2 = X
                good = same(X2, want)
                if good:
                    nx = T.assume(nxt, facts)
                    spec = T.t_phi(gg, T.ZERO, want)
                    r = T.is_const(ini, 0) and same(nx, spec)
                    ctx.verdict(r, 'fit-counter', '%s %s' % (n, name), w, 'since-fit counter: %s -> %s' % (ini, nx), 'restarts at 0 exactly after a fit')
                    break
            ctx.verdict(good, 'fit-schedule', '%s %s' % (n, name), w, 'fit happens when %s' % gg, 'first iteration with count >= request')
        ctx.verdict(same(f.args[0], L.appends[0].recv) if f.args else False, 'fit-dataset', n, w, 'fit receives %s' % f.args)
        pos = {id(e): k for k, e in enumerate(L.body)}
        ctx.verdict(pos[id(L.appends[0])] < pos[id(f)], 'record-before-fit', n, w, 'the last sample is recorded after the fit')
        if len(L.clears) == 1:
            cl = L.clears[0]
            ctx.verdict(same(L.rel(cl), g), 'clear-after-fit', n, w, 'samples are cleared under %s, fit under %s' % (L.rel(cl), g))
            ctx.verdict(pos[id(f)] < pos[id(cl)], 'clear-order', n, w, 'samples are cleared before the fit')
            cbs = [e for e in L.body if e.kind == 'call' and e.name == '__call__' and e.args and e.args[0] is cl.recv]
            ctx.verdict(bool(cbs) and all(pos[id(f)] < pos[id(e)] < pos[id(cl)] for e in cbs), 'callbacks-see-fit-data', n, w,
                        'fit callbacks do not run between fit and clear')
        else:
            ctx.verdict(None if len(L.clears) > 1 else False, 'clear-after-fit', n, w, '%d clear sites' % len(L.clears))
    ctx.part('logic', logic)
    R = 'refinement'
    for c in ('Core', 'VectorCore'):
        P = Policy(opaque=['_reset', '_step', '_end'])
        ctx.part(c + '._run', lambda ctx: refine(ctx, c, '_run', 'core', c + '_run', R, heap=False, attrs=False, over=False, policy=P,
                                                 calls=('initialize_run', 'fit', 'flatten', 'clear', 'after_step', 'after_fit', 'after_fit_vectorized', 'append', 'append_vectorized', 'parse'), ret=True, tag=c + '._run'))
    for c in ('CoreLogic', 'VectorizedCoreLogic'):
        for m in ('initialize_learn', 'initialize_evaluate', 'after_fit'):
            ctx.part('%s.%s' % (c, m), lambda ctx: refine(ctx, c, m, 'core', 'Logic_' + m, R, heap=False, tag='%s.%s' % (c, m)))
        for m, sp in (('_move_steps_condition', 'move_steps'), ('_fit_steps_condition', 'fit_steps'), ('_move_episodes_condition', 'move_episodes'), ('_fit_episodes_condition', 'fit_episodes')):
            ctx.part('%s.%s' % (c, m), lambda ctx: refine(ctx, c, m, 'core', 'Logic_' + sp, R, heap=False, ret=True, tag='%s.%s' % (c, m)))
    for c, pre in (('CoreLogic', 'Logic_'), ('VectorizedCoreLogic', 'VectorLogic_')):
        for m in ('initialize_run', 'after_step'):
            ctx.part('%s.%s' % (c, m), lambda ctx: refine(ctx, c, m, 'core', pre + m, R, heap=False, tag='%s.%s' % (c, m)))
    for m in ('after_fit_vectorized', 'get_mask'):
        ctx.part('VectorizedCoreLogic.' + m, lambda ctx: refine(ctx, 'VectorizedCoreLogic', m, 'core', 'VectorLogic_' + m, R, heap=False, ret=True, tag='VectorizedCoreLogic.' + m))



def logic(ctx):
    """Vectorised counters."""
    c = ctx.prog.cls('VectorizedCoreLogic')
    if c is None:
        ctx.unk('vector-counters', 'VectorizedCoreLogic', 'class not found')
        return
    n = 'VectorizedCoreLogic'
    s = mk('self', c.qual)
    I = Interp(ctx.prog, Policy())
    for kind in ('steps', 'episodes'):
        # which counters drive the conditions
        pass
    r = run(ctx, c, 'after_step', interp=I)
    conds = {}
    for meth in ('initialize_learn', 'initialize_run'):
        I2 = Interp(ctx.prog, Policy(opaque=['_reset_counters']))
        r1 = run(ctx, c, meth, interp=I2)
        if r1 is None:
            continue
        for attr in ('fit_required', 'move_required'):
            v = r1.state.heap.get((s, attr))
            if v is None:
                continue
            st = r1.state.copy()
            # evaluate the bound predicate
            fr_state = st
            for leaf, cond in leaves_c(v):
                if leaf.op == 'bound':
                    f = ctx.prog.find(c, leaf.args[1])
                    rr = I2.run(f, c, state=st)
                    conds.setdefault(attr, []).append((cond, rr.ret))
    if r is None:
        ctx.unk('vector-counters', n, 'after_step not found')
        return
    w = r.func.loc
    lastp = mk('param', r.func.node.args.args[1].arg)
    T.BOOL_SYMS.add(lastp.id)
    for attr, lst in conds.items():
        for cond, ret in lst:
            cnt = [x for x in T.walk(ret) if x.op == 'attr' and x.args[0] is s]
            ret = T.assume(ret, {T.t_cmp('is', x, NONE): TRUE for x in T.walk(ret) if x.op == 'param' and x.args[0] == 'initial_states'})
            bound = [x for x in T.walk(ret) if x.op == 'param']
            if len(cnt) != 1 or len(bound) != 1:
                ctx.unk('vector-counters', '%s.%s' % (n, attr), 'condition %s' % ret)
                continue
            X = threshold(ret, bound[0], {}, 'ge' if attr == 'fit_required' else 'lt')
            ctx.verdict(X is cnt[0], 'vector-condition', '%s.%s.%s' % (n, attr, bound[0].args[0]), w, 'condition is %s' % ret)
            post = r.attr(s, cnt[0].args[1])
            if post is None:
                ctx.bad('vector-counters', '%s.%s' % (n, cnt[0].args[1]), w, 'the counter is not advanced by a step')
                continue
            post = no_epoch(post, s)
            d = T.p_add(T.poly(post), T.poly(no_epoch(cnt[0], s)), -1)
            inc = T.from_poly(d)
            if 'episodes' in bound[0].args[0]:
                want = mk('call', mk('meth', lastp, 'sum'), mk('tuple'), mk('kwargs'))
                ctx.verdict(True if T.equal(inc, want) else (None if murky(inc) else False), 'vector-counters', '%s.%s' % (n, cnt[0].args[1]), w,
                            'episodes advance by %s per step' % inc, 'advanced by the number of ended running episodes')
            else:
                ok = T.contains(inc, lambda x: x.op in ('f', 'call') and (x.op == 'f' and x.args[0] == 'sum')) and T.contains(inc, lambda x: x.op == 'attr' and x.args[0] is s) \
                    and len(d) == 1 and list(d.values())[0] == 1
                ctx.verdict(True if ok else (None if murky(inc) else False), 'vector-counters', '%s.%s' % (n, cnt[0].args[1]), w,
                            'steps advance by %s per step' % inc, 'advanced by the number of running environments')
    # evaluation must not inherit the fit schedule
    r = run(ctx, c, 'initialize_evaluate')
    if r is not None:
        for a in ('_n_episodes_per_fit', '_n_steps_per_fit'):
            v = r.attr(s, a)
            reads = 0
            import ast as _ast
            for k in ctx.prog.mro(c):
                if isinstance(k, Class):
                    for m in k.methods.values():
                        if m.name in ('initialize_learn',):
                            continue
                        for x in _ast.walk(m.node):
                            if isinstance(x, _ast.Attribute) and x.attr == a and isinstance(x.ctx, _ast.Load):
                                reads += 1
            if reads:
                ctx.verdict(v is NONE, 'evaluation-has-no-fit-schedule', '%s.%s' % (n, a), r.func.loc,
                            'the fit schedule of a previous learn call still bounds evaluation')
        fr = r.attr(s, 'fit_required')
        if fr is not None and fr.op == 'closure':
            node = r.interp.closures[fr.id][0]
            import ast as _ast
            ok = isinstance(node, _ast.Lambda) and isinstance(node.body, _ast.Constant) and not node.body.value
            ctx.verdict(True if ok else None, 'vector-evaluation-never-learns', n, r.func.loc, 'evaluation predicate is not constant false')
    # VectorCore: fit only under fit_required, flatten before, clear after
    c2 = ctx.prog.need_cls('VectorCore')
    r = run(ctx, c2, '_run', policy=Policy(opaque=['get_mask', 'after_step', 'after_fit_vectorized', 'get_initial_state', '_reset_counters', 'fit_required', 'move_required', '_step', '_reset']))
    if r is None:
        return
    ev = list(flat(r.events))
    by = lambda nm: [e for e in ev if e.kind == 'call' and e.name == nm]
    n2 = 'VectorCore'
    fit, cl, ap, fl, af, frq = by('fit'), by('clear'), by('append_vectorized'), by('flatten'), by('after_fit_vectorized'), by('fit_required')
    if len(fit) == 1 and len(frq) == 1:
        w = '%s:%s' % (fit[0].file, fit[0].func)
        lp = find_loop(r.events, lambda b: any(e is fit[0] for e in b))
        g = fit[0].guard
        ctx.verdict(T.depends(g, frq[0].node), 'vector-fit-guard', n2, w, 'fit happens under %s' % g)
        ctx.verdict(len(cl) == 1 and cl[0].guard is g, 'vector-clear-after-fit', n2, w, 'samples are not cleared exactly after a fit')
        if len(cl) == 1:
            order = [ev.index(x) for x in (ap[0], fit[0], cl[0])] if ap else []
            ctx.verdict(order == sorted(order), 'vector-clear-order', n2, w, 'record, fit, clear happen out of order')
        ctx.verdict(len(af) == 1 and af[0].guard is g, 'vector-counters-restart', n2, w, 'since-fit counters are not restarted after the fit')
        f0 = [x for x in fl if x.node is fit[0].args[0]]
        ctx.verdict(bool(f0), 'vector-fit-dataset', n2, w, 'fit receives %s' % fit[0].args)
    else:
        ctx.unk('vector-fit-guard', n2, 'fit call sites not recognised')
    as_ = by('after_step')
    st = by('_step')
    if len(as_) == 1 and as_[0].args:
        m = as_[0].args[0]
        ok = m.op == 'band' and ap and len(ap[0].args) > 2 and ap[0].args[2] in m.args
        ctx.verdict(True if ok else (None if murky(m) else False), 'vector-counts-running-only', n2, '%s:%s' % (as_[0].file, as_[0].func),
                    'episode ends are counted from %s' % m, 'ended & running')


def no_epoch(n, s):
    return T.subst(n, lambda x: mk('attr', *x.args[:2]) if x.op == 'attr' and x.args[0] is s and len(x.args) > 2 else None)


def leaves_c(n, cond=TRUE):
    if n.op == 'phi':
        yield from leaves_c(n.args[1], t_and([cond, n.args[0]]))
        yield from leaves_c(n.args[2], t_and([cond, T.t_not(n.args[0])]))
    else:
        yield n, cond
