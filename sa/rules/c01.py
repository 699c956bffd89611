"""Value-graph analysis of the experiment loop reached from the public learn/evaluate entry points.
The loop body is summarised as a transfer function; the record handed to the dataset, the action handed
to the environment and the carried state are compared as values: every field of the record must be the
corresponding output of the single draw_action / environment step of that iteration, and the state carried
to the next iteration must be the recorded next state.  The vectorised loop is decided the same way per step."""
from ..rl import *
from ..spec import refine, eq3, Policy as _P
from ._core import RunLoop, ENTRY

MIN_OBLIGATIONS = 18


def check(ctx):
    for entry in ENTRY:
        L = RunLoop(ctx, entry)
        why = L.ready()
        n, w = L.name, L.where
        if why:
            # exactly one of each per iteration is itself part of the property
            for nm, l in (('environment step', L.steps), ('action draw', L.draws), ('record', L.appends)):
                ctx.verdict(None if len(l) > 1 else len(l) == 1, 'one-%s-per-iteration' % nm.replace(' ', '-'), n, w, why)
            ctx.unk('record', n, why)
            continue
        S, E, A = L.S, L.E, L.A
        i = L.idx
        for nm, l in (('environment step', L.steps), ('action draw', L.draws), ('record', L.appends)):
            g = L.rel(l[0])
            ctx.verdict(True if g is TRUE else (None if murky(g) else False), 'one-%s-per-iteration' % nm.replace(' ', '-'), n, w,
                        'the %s only happens under %s' % (nm, g), 'unconditional in every iteration')
        ctx.verdict(same(L.steps[0].args[0], i(A, 0)) if L.steps[0].args else False, 'executed-action', n, w,
                    'environment steps with %s, policy drew %s' % (L.steps[0].args, i(A, 0)), 'step(draw_action()[0])')
        ctx.verdict(same(S[1], i(A, 0)), 'record-action', n, w, 'recorded action is %s' % S[1])
        ctx.verdict(same(S[0], L.draws[0].args[0]) if L.draws[0].args else False, 'record-state', n, w,
                    'recorded state %s is not the state the policy acted on' % S[0], 'state seen by the policy')
        ctx.verdict(same(S[2], i(E, 1)), 'record-reward', n, w, 'recorded reward is %s' % S[2])
        ctx.verdict(same(S[4], i(E, 2)), 'record-absorbing', n, w, 'recorded absorbing flag is %s' % S[4])
        ctx.verdict(L.preprocessed(S[3], i(E, 0)), 'record-next-state', n, w,
                    'recorded next state %s is not the preprocessed observation' % S[3], 'core preprocessors applied to step()[0]')
        ap = L.appends[0]
        info = ap.args[1] if len(ap.args) > 1 else ap.kw.get('info', NONE)
        ctx.verdict(same(info, i(E, 3)), 'record-info', n, w, 'recorded step info is %s' % info)
        # chaining
        st = L.draws[0].args[0]
        cond, carried = None, None
        if st.op == 'phi':
            c, a, b = st.args
            lvs = [x for x in (a, b) if x in L.table]
            carried = lvs[0] if len(lvs) == 1 else None
        if carried is None:
            ctx.unk('state-chain', n, 'the state carried between iterations was not recognised')
        else:
            ctx.verdict(same(L.table[carried][1], S[3]), 'state-chain', n, w,
                        'the next iteration acts on %s, recorded next state is %s' % (L.table[carried][1], S[3]),
                        'state acted on next = recorded next state')
        ps = L.draws[0].args[1] if len(L.draws[0].args) > 1 else None
        if ps is not None:
            ctx.verdict(same(S[6], ps), 'record-policy-state', n, w, 'recorded policy state is %s' % S[6])
            lvs = [x for x in (ps.args[1:] if ps.op == 'phi' else ()) if x in L.table]
            if len(lvs) == 1:
                ctx.verdict(same(L.table[lvs[0]][1], i(A, 1)), 'policy-state-chain', n, w, 'policy state carried over is %s' % L.table[lvs[0]][1])
        ctx.verdict(same(S[7], i(A, 1)), 'record-policy-next-state', n, w, 'recorded next policy state is %s' % S[7])
    ctx.part('vector', vector)
    ctx.part('agent', agent)
    R = 'refinement'
    for c in ('Core', 'VectorCore'):
        ctx.part(c + '._reset', lambda ctx: refine(ctx, c, '_reset', 'core', c + '_reset', R, ret=False, heap=False, only=('_state', '_policy_state', 'self._policy_state', 'next_action', '_episode_steps', 'self._episode_steps'), calls=('reset', 'reset_all', 'update'), tag=c + '._reset'))
        ctx.part(c + '._run', lambda ctx: refine(ctx, c, '_run', 'core', c + '_run', R, heap=False, attrs=False, over=False, policy=_P(opaque=['_reset', '_step', '_end']),
                                                 calls=('_reset', '_step', 'append', 'append_vectorized', 'get_mask'), tag=c + '._run', ret=True))
        ctx.part(c + '._step', lambda ctx: refine(ctx, c, '_step', 'core', c + '_step', R, ret=True, heap=False, calls=('step', 'step_all', 'update'), tag=c + '._step'))
    ctx.part('Agent.draw_action', lambda ctx: refine(ctx, 'Agent', 'draw_action', 'core', 'Agent_draw_action', R, ret=True, heap=False, tag='Agent.draw_action'))
    ctx.part('Agent._agent_preprocess', lambda ctx: refine(ctx, 'Agent', '_agent_preprocess', 'core', 'Agent_preprocess', R, ret=True, heap=False, tag='Agent._agent_preprocess'))


def vector(ctx):
    c = ctx.prog.need_cls('VectorCore')
    I = Interp(ctx.prog, Policy(opaque=['get_mask', 'after_step', 'after_fit_vectorized', 'get_initial_state', '_reset_counters']))
    r = run(ctx, c, '_run', interp=I)
    if r is None:
        ctx.unk('vector', 'VectorCore', '_run not found')
        return
    n = 'VectorCore'
    ev = list(flat(r.events))
    one = lambda name: [e for e in ev if e.kind == 'call' and e.name == name]
    st, dr, ap = one('step_all'), one('draw_action'), one('append_vectorized')
    if not (len(st) == len(dr) == len(ap) == 1) or not ap[0].args or ap[0].args[0].op != 'tuple' or len(ap[0].args[0].args) != 8:
        ctx.unk('vector', n, 'step/draw/append call sites not recognised')
        return
    st, dr, ap = st[0], dr[0], ap[0]
    w = '%s:%s' % (ap.file, ap.func)
    S, E, A = ap.args[0].args, st.node, dr.node
    i = lambda x, k: mk('index', x, const(k))
    ctx.verdict(same(st.args[1], i(A, 0)) if len(st.args) > 1 else False, 'vector-executed-action', n, w, 'step_all is given %s' % st.args[1:])
    ctx.verdict(same(S[0], dr.args[0]), 'vector-record-state', n, w, 'recorded state is %s' % S[0])
    ctx.verdict(same(S[1], i(A, 0)), 'vector-record-action', n, w, 'recorded action is %s' % S[1])
    ctx.verdict(same(S[2], i(E, 1)), 'vector-record-reward', n, w, 'recorded reward is %s' % S[2])
    ctx.verdict(same(S[4], i(E, 2)), 'vector-record-absorbing', n, w, 'recorded absorbing is %s' % S[4])
    ns = S[3]
    ok = None
    if ns.op == 'loop':
        ok = same(ns.args[2], i(E, 0))
    elif not murky(ns):
        ok = False
    ctx.verdict(ok, 'vector-record-next-state', n, w, 'recorded next state is %s' % ns)
    ctx.verdict(same(S[7], i(A, 1)), 'vector-record-policy-next-state', n, w, 'recorded next policy state is %s' % S[7])
    if len(dr.args) > 1:
        ctx.verdict(same(S[6], dr.args[1]), 'vector-record-policy-state', n, w, 'recorded policy state is %s' % S[6])
    m = ap.args[2] if len(ap.args) > 2 else ap.kw.get('mask', NONE)
    ctx.verdict(same(m, st.args[0]), 'vector-mask', n, w, 'samples are recorded with mask %s but stepped with mask %s' % (m, st.args[0]),
                'recorded mask = stepped mask')
    info = ap.args[1] if len(ap.args) > 1 else NONE
    ctx.verdict(same(info, i(E, 3)), 'vector-record-info', n, w, 'recorded info is %s' % info)
    # carried state
    lp = find_loop(r.events, lambda b: any(e is st for e in b))
    if lp is not None:
        tab = loop_table(I, lp.lid)
        for (arg, rec, rule) in ((dr.args[0], S[3], 'vector-state-chain'), (dr.args[1] if len(dr.args) > 1 else None, S[7], 'vector-policy-state-chain')):
            if arg is None:
                continue
            lvs = [x for x in T.walk(arg) if x in tab and x.args[1] == 'heap' and x.args[2][1] in ('_state', '_policy_state')] if arg.op in ('phi', 'lv') else []
            tops = [x for x in _leaves(arg) if x in tab and x.args[1] == 'heap']
            if len(tops) == 1:
                ctx.verdict(same(tab[tops[0]][1], rec), rule, n, w, 'carried over %s, recorded %s' % (tab[tops[0]][1], rec))
            else:
                ctx.unk(rule, n, 'carried value not recognised')


def _leaves(n):
    if n.op == 'phi':
        yield from _leaves(n.args[1])
        yield from _leaves(n.args[2])
    else:
        yield n


def agent(ctx):
    """The base agent draws from its policy on the (converted, preprocessed) state and hands the draw over unchanged."""
    for c in [ctx.prog.need_cls('Agent')] + ctx.prog.subclasses(ctx.prog.need_cls('Agent')):
        f = ctx.prog.find(c, 'draw_action')
        if f is None or (f.cls is not c and c.name != 'Agent'):
            continue
        r = run(ctx, c, 'draw_action')
        dr = [e for e in flat(r.events) if e.kind == 'call' and e.name == 'draw_action']
        n, w = c.name + '.draw_action', f.loc
        if len(dr) != 1 or r.ret.op != 'tuple' or len(r.ret.args) != 2:
            ctx.unk('agent-draw', n, 'not recognised')
            continue
        dr = dr[0]
        P = mk('param', f.node.args.args[1].arg)
        PS = mk('param', f.node.args.args[2].arg) if len(f.node.args.args) > 2 else NONE
        for k, rule in ((0, 'agent-action'), (1, 'agent-policy-next-state')):
            v = r.ret.args[k]
            inner = _unconv(v)
            leaves = list(_leaves(inner))
            want = mk('index', dr.node, const(k))
            pend = [x for x in leaves if x is not want]
            okset = all(x is want or (k == 0 and is_attr(x, 'next_action')) or (k == 1 and x is NONE) for x in leaves)
            ctx.verdict(True if okset and any(x is want for x in leaves) else (None if murky(v) else False), rule, n, w,
                        'the agent returns %s instead of the drawn value' % v, 'policy draw, or the pending action')
        ctx.verdict(T.depends(dr.args[0], P) if dr.args else False, 'agent-draw-state', n, w, 'the policy is queried with %s' % dr.args)
        ctx.verdict(T.depends(dr.args[1], PS) if len(dr.args) > 1 else False, 'agent-draw-policy-state', n, w, 'the policy is queried with %s' % dr.args)
        # a pending action is used once
        if any(is_attr(x, 'next_action') for x in _leaves(_unconv(r.ret.args[0]))):
            g = [e for e in flat(r.events) if e.kind == 'setattr' and e.name == 'next_action']
            used = T.t_not(T.t_cmp('is', mk('attr', mk('self', c.qual), 'next_action'), NONE))
            ok = any(e.value is NONE and (e.guard is TRUE or same(e.guard, used) is True) for e in g)
            ctx.verdict(ok, 'pending-action-used-once', n, w, 'a pending action is returned but not cleared', 'next_action cleared when consumed')


def _unconv(n):
    while n.op == 'call':
        k, nm, a, kw = T.call_parts(n)
        if k == 'meth' and nm == 'convert_to_backend' and len(a) == 3:
            n = a[2]
        else:
            break
    return n
