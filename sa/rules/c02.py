"""The run loop (value-graph transfer function of one iteration, from learn and evaluate) is compared with the
episode protocol: end-of-episode flag = absorbing or step count since reset >= horizon; the environment is reset
exactly on the first iteration and after an ended episode; on reset the step count restarts, the pending action is
dropped, the agent is told about the episode start, and the first recorded state is the reset observation."""
from ..rl import *
from ..spec import refine
from ._core import RunLoop, ENTRY
from .c01 import _leaves

MIN_OBLIGATIONS = 18


def check(ctx):
    for entry in ENTRY:
        sequential(ctx, RunLoop(ctx, entry), entry)
    ctx.part('vector', vector)
    R = 'refinement'
    for c in ('Core', 'VectorCore'):
        ctx.part(c + '._reset', lambda ctx: refine(ctx, c, '_reset', 'core', c + '_reset', R, ret=c == 'VectorCore', heap=False, calls=('reset', 'reset_all', 'episode_start', 'episode_start_vectorized', 'update'), tag=c + '._reset'))
        ctx.part(c + '._end', lambda ctx: refine(ctx, c, '_end', 'core', c + '_end', R, heap=False, calls=('terminate_run', 'stop'), tag=c + '._end'))
        P = Policy(opaque=['_reset', '_step', '_end'])
        ctx.part(c + '._run', lambda ctx: refine(ctx, c, '_run', 'core', c + '_run', R, heap=False, attrs=False, over=False, policy=P, guards=True,
                                                 calls=('_reset', '_step', '_end', 'append_theta', 'append_theta_vectorized', 'append', 'append_vectorized', 'stop', 'get_mask'), tag=c + '._run'))
    ctx.part('Agent.episode_start', lambda ctx: refine(ctx, 'Agent', 'episode_start', 'core', 'Agent_episode_start', R, ret=True, heap=False, tag='Agent.episode_start'))
    ctx.part('Agent.episode_start_vectorized', lambda ctx: refine(ctx, 'Agent', 'episode_start_vectorized', 'core', 'Agent_episode_start', R, ret=True, heap=False, tag='Agent.episode_start_vectorized'))
    for c, sp in (('CoreLogic', 'Logic'), ('VectorizedCoreLogic', 'VectorLogic')):
        ctx.part(c + '.get_initial_state', lambda ctx: refine(ctx, c, 'get_initial_state', 'core', sp + '_get_initial_state', R, ret=True, heap=False, tag=c + '.get_initial_state'))


def sequential(ctx, L, entry):
    n, w = L.name, L.where
    why = L.ready()
    if why:
        ctx.unk('episode-protocol', n, why)
        return
    S, E, A, i = L.S, L.E, L.A, L.idx
    st = L.draws[0].args[0]
    if st.op != 'phi' or not any(x in L.table for x in st.args[1:]):
        ctx.verdict(None if murky(st) else (False if not L.resets else None), 'reset-when-ended', n, w, 'the acted-on state never comes from a reset: %s' % st)
        return
    c, a, b = st.args
    carried = a if a in L.table else b
    resetval = b if carried is a else a
    rc = c if resetval is a else T.t_not(c)     # condition under which the reset state is used
    # ---- last flag
    absorbing = i(E, 2)
    T.BOOL_SYMS.add(T.canon(absorbing).id)
    T.BOOL_SYMS.add(absorbing.id)
    hor = None
    last = T.canon(S[5])
    steps = [lv for lv in L.table if lv.args[1] == 'heap' and T.depends(S[5], lv) and lv not in T.walk(st) and L.table[lv][1].op in ('add', 'phi')]
    spec_steps = None
    cand = [x for x in T.walk(S[5]) if is_attr(x, 'horizon')]
    counter = None
    for lv in L.table:
        ini, nxt = L.table[lv]
        want = T.t_bin('add', T.t_phi(rc, T.ZERO, lv), T.ONE)
        if T.equal(nxt, want):
            if T.depends(S[5], lv):
                counter = (lv, nxt)
                break
    if counter is None:
        # a counter that influences the flag but does not count steps since reset
        cnt = [lv for lv in L.table if lv.args[1] in ('heap', 'env') and T.depends(S[5], lv) and not T.depends(A, lv)]
        ctx.verdict(None if murky(S[5]) else False, 'step-counter', n, w,
                    'no counter in the end-of-episode flag counts the steps since the last reset: flag is %s' % S[5])
    else:
        ctx.ok('step-counter', n, 'count = (0 after reset else previous) + 1')
        hs = cand[0] if cand else mk('attr', mk('attr', L.env, 'info'), 'horizon')
        spec = T.t_bool('or', [T.t_cmp('ge', counter[1], hs), absorbing])
        r = T.equal(S[5], spec)
        if not r:
            r = None if murky(S[5]) else False
        ok_h = all(h.args[0].op == 'attr' and h.args[0].args[1] == 'info' and h.args[0].args[0] is L.env for h in cand)
        ctx.verdict(r if ok_h else False, 'last-flag', n, w, 'end-of-episode flag is %s' % S[5], 'absorbing or steps >= horizon')
    # ---- reset exactly when needed
    first = sub_lv(rc, L.table, 0)
    nxt = sub_lv(rc, L.table, 1)
    ctx.verdict(True if first is TRUE else (None if murky(first) else False), 'reset-first', n, w, 'the first iteration resets under %s' % first,
                'first iteration always resets')
    ctx.verdict(same(nxt, S[5]), 'reset-when-ended', n, w, 'the next iteration resets under %s, the episode ended under %s' % (nxt, S[5]),
                'reset iff previous sample was last')
    # ---- what a reset does
    if len(L.resets) != 1:
        ctx.verdict(None if len(L.resets) > 1 else False, 'reset-call', n, w, '%d reset call sites' % len(L.resets))
        return
    R = L.resets[0].node
    ctx.verdict(same(L.rel(L.resets[0]), rc), 'reset-call', n, w, 'the environment is reset under %s but the episode restarts under %s' % (L.rel(L.resets[0]), rc))
    ctx.verdict(L.preprocessed(resetval, i(R, 0)), 'first-state', n, w, 'an episode starts from %s' % resetval, 'core preprocessors applied to reset()[0]')
    ps = L.draws[0].args[1] if len(L.draws[0].args) > 1 else NONE
    if len(L.starts) == 1:
        X = L.starts[0].node
        ctx.verdict(same(L.rel(L.starts[0]), rc), 'episode-start-call', n, w, 'episode_start is called under %s' % L.rel(L.starts[0]))
        ctx.verdict(same(L.starts[0].args[0], i(R, 0)), 'episode-start-state', n, w, 'episode_start receives %s' % L.starts[0].args)
        ctx.verdict(same(L.starts[0].args[1], i(R, 1)) if len(L.starts[0].args) > 1 else False, 'episode-start-info', n, w, 'episode_start receives %s' % L.starts[0].args)
        if ps.op == 'phi':
            pr = [x for x in ps.args[1:] if x not in L.table]
            ctx.verdict(same(T.t_phi(rc, i(X, 0), NONE), T.t_phi(ps.args[0], ps.args[1] if ps.args[1] not in L.table else NONE, ps.args[2] if ps.args[2] not in L.table else NONE)),
                        'policy-state-restart', n, w, 'the policy state is restarted as %s' % ps)
        else:
            ctx.verdict(None if murky(ps) else False, 'policy-state-restart', n, w, 'the policy state is %s' % ps)
        if len(L.thetas) == 1:
            g = L.rel(L.thetas[0])
            isep = [x for x in T.walk(g) if is_attr(x, 'is_episodic')]
            spec = t_and([rc] + isep[:1])
            ctx.verdict(same(g, spec), 'theta-per-episode', n, w, 'theta is stored under %s' % g)
            ctx.verdict(same(L.thetas[0].args[0], i(X, 1)), 'theta-value', n, w, 'theta stored is %s' % L.thetas[0].args)
        else:
            ctx.verdict(None if len(L.thetas) > 1 else False, 'theta-per-episode', n, w, '%d append_theta sites' % len(L.thetas))
    else:
        ctx.verdict(None if len(L.starts) > 1 else False, 'episode-start-call', n, w, '%d episode_start sites' % len(L.starts))
    # pending action dropped
    pend = [lv for lv in L.table if lv.args[1] == 'heap' and lv.args[2] == (L.agent, 'next_action')]
    if pend:
        lv = pend[0]
        # value at the time of draw_action
        ev = [e for e in L.body if e.kind == 'setattr' and e.name == 'next_action' and e.obj is L.agent]
        ok = any(e.value is NONE and same(L.rel(e), rc) is True for e in ev)
        order = all(L.body.index(e) < L.body.index(L.draws[0]) for e in ev)
        ctx.verdict(ok and order, 'pending-action-dropped', n, w, 'the pending action survives a reset')
    else:
        ctx.verdict(False, 'pending-action-dropped', n, w, 'the pending action is never dropped on reset')
    # initial states
    if entry == 'evaluate':
        init = L.resets[0].args[0] if L.resets[0].args else L.resets[0].kw.get('state', NONE)
        P = mk('param', 'initial_states')
        used = [x for x in T.walk(init) if x.op == 'index' and x.args[0] is P]
        if not used:
            ctx.verdict(None if murky(init) else False, 'initial-states', n, w, 'initial states are not used: %s' % init)
        else:
            k = used[0].args[1]
            inc = None
            if k in L.table:
                ini, nx = L.table[k]
                inc = T.is_const(ini, 0) and T.equal(nx, T.t_phi(S[5], T.t_bin('add', k, T.ONE), k))
            ctx.verdict(inc if inc is not None else None, 'initial-states', n, w, 'episode k starts from initial_states[%s]' % k, 'indexed by number of completed episodes')
            has = T.assume(init, {T.t_cmp('is', P, NONE): FALSE})
            none = T.assume(init, {T.t_cmp('is', P, NONE): TRUE})
            ctx.verdict(same(none, NONE), 'initial-states-default', n, w, 'without initial states reset receives %s' % none)


def vector(ctx):
    c = ctx.prog.need_cls('VectorCore')
    n = 'VectorCore'
    pol = Policy(opaque=['get_mask', 'after_step', 'after_fit_vectorized', 'get_initial_state', '_reset_counters'])
    I = Interp(ctx.prog, pol)
    r = run(ctx, c, '_run', interp=I)
    if r is None:
        ctx.unk('vector', n, '_run not found')
        return
    ev = list(flat(r.events))
    one = lambda name: [e for e in ev if e.kind == 'call' and e.name == name]
    st, ra, es, ap = one('step_all'), one('reset_all'), one('episode_start_vectorized'), one('append_vectorized')
    if not (len(st) == len(ra) == len(es) == len(ap) == 1) or ap[0].args[0].op != 'tuple':
        ctx.unk('vector', n, 'call sites not recognised')
        return
    st, ra, es, ap = st[0], ra[0], es[0], ap[0]
    w = '%s:%s' % (ra.file, ra.func)
    lp = find_loop(r.events, lambda b: any(e is st for e in b))
    tab = loop_table(I, lp.lid)
    E, R = st.node, ra.node
    i = lambda x, k: mk('index', x, const(k))
    absb = i(E, 2)
    T.BOOL_SYMS.add(T.canon(absb).id)
    S = ap.args[0].args
    # reset mask = ended & running
    gm = one('get_mask')
    if len(gm) == 1 and gm[0].args:
        last = gm[0].args[0]
        T.BOOL_SYMS.add(T.canon(last).id)
        T.BOOL_SYMS.add(T.canon(gm[0].node).id)
        ctx.verdict(same(ra.args[0], mk('band', last, gm[0].node)), 'vector-reset-mask', n, w, 'environments are reset with mask %s' % ra.args[0], 'ended & running')
        g = ra.guard
        anyl = [x for x in T.walk(g) if x.op == 'call' and T.fname(x) == 'any']
        ctx.verdict(True if any(T.canon(T.call_parts(x)[2][0]) is T.canon(last) for x in anyl) else (None if murky(g) else False),
                    'vector-reset-when-ended', n, w, 'reset happens under %s' % g)
        if last in tab:
            init, nxt = tab[last]
            ok = T.contains(init, lambda x: x.op == 'call' and T.fname(x) == 'ones') or T.poly(init) == T.p_const(1)
            ctx.verdict(ok, 'vector-reset-first', n, w, 'initially ended flags are %s' % init)
            # after the step: the recorded flags, possibly overridden by the fit
            leaves = list(_leaves(nxt))
            ctx.verdict(any(same(x, S[5]) for x in leaves) if not murky(nxt) else None, 'vector-last-carried', n, w, 'flags carried over: %s' % nxt)
        if len(es.args) > 2:
            ctx.verdict(same(es.args[2], ra.args[0]), 'vector-start-mask', n, w, 'episode_start mask is %s' % es.args[2])
        ctx.verdict(same(es.args[0], i(R, 0)), 'vector-start-state', n, w, 'episode_start receives %s' % es.args[0])
        th = one('append_theta_vectorized')
        if len(th) == 1:
            ctx.verdict(same(th[0].args[0], i(es.node, 1)), 'vector-theta', n, w, 'theta stored %s' % th[0].args[0])
            ctx.verdict(same(th[0].args[1], ra.args[0]), 'vector-theta-mask', n, w, 'theta mask %s' % th[0].args[1])
    else:
        ctx.unk('vector-reset-mask', n, 'running mask computation not recognised')
    nx = [e for e in ev if e.kind == 'setattr' and e.name == 'next_action']
    ctx.verdict(any(e.value is NONE and e.guard is ra.guard for e in nx), 'vector-pending-action-dropped', n, w, 'pending action survives a reset')
    # step method on its own: counter and flag
    r2 = run(ctx, c, '_step', policy=Policy())
    if r2 is None or r2.ret.op != 'tuple':
        ctx.unk('vector-last-flag', n, '_step not recognised')
        return
    ev2 = list(flat(r2.events))
    st2 = [e for e in ev2 if e.kind == 'call' and e.name == 'step_all']
    smp = r2.ret.args[0]
    if len(st2) != 1 or smp.op != 'tuple' or len(smp.args) != 8:
        ctx.unk('vector-last-flag', n, '_step not recognised')
        return
    mask = st2[0].args[0]
    T.BOOL_SYMS.add(T.canon(mask).id)
    ab = i(st2[0].node, 2)
    T.BOOL_SYMS.add(T.canon(ab).id)
    cmps = [x for x in T.walk(smp.args[5]) if x.op in ('lt', 'le', 'eq') and not T.depends(x, st2[0].node)]
    cnt = [x for q in cmps for x in T.walk(q) if x.op == 'attr' and x.args[0].op == 'self' and x.args[1] != 'env']
    hz = [x for x in T.walk(smp.args[5]) if is_attr(x, 'horizon')]
    if len(set(cnt)) == 1 and hz:
        k = cnt[0]
        spec = mk('bor', ab, T.t_cmp('ge', T.t_bin('add', k, T.t_phi(mask, T.ONE, T.ZERO)), hz[0]))
        v = T.equal(smp.args[5], spec)
        ctx.verdict(v if v else (None if murky(smp.args[5]) else False), 'vector-last-flag', n, w, 'flag is %s' % smp.args[5], 'absorbing | (steps + running >= horizon)')
        post = r2.attr(mk('self', c.qual), k.args[1]) or r2.content(k)
        ctx.verdict(same(post, T.t_bin('add', k, T.t_phi(mask, T.ONE, T.ZERO))), 'vector-step-counter', n, w, 'the step counter becomes %s' % post, 'incremented where running')
        # reset zeroes it where ended
        r3 = run(ctx, c, '_reset', policy=pol)
        if r3 is not None:
            sets = [e for e in flat(r3.events) if e.kind == 'setitem' and T.depends(e.basev, mk('attr', mk('self', c.qual), k.args[1]))]
            names = [a.arg for a in r3.func.node.args.args]
            ok = any(T.is_const(e.value, 0) for e in sets)
            lastp = mk('param', 'last')
            okk = [e for e in sets if T.is_const(e.value, 0) and T.depends(e.key, lastp)] if 'last' in names else sets
            ctx.verdict(True if okk else (None if not sets and False else False), 'vector-counter-restart', n, w, 'the step counter of ended environments is not restarted')
    else:
        ctx.verdict(None if murky(smp.args[5]) or not hz else False, 'vector-last-flag', n, w, 'flag is %s' % smp.args[5])
