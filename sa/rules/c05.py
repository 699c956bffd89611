"""Refinement: the complete effect of one fit call of every temporal-difference algorithm (table entries, traces,
weights, auxiliary tables, number of learning-rate evaluations) is compared in normal form with its published update
rule (sa/specs/td.py)."""
from ..rl import *
from ..spec import *

MIN_OBLIGATIONS = 20
ALGOS = ['QLearning', 'SARSA', 'ExpectedSARSA', 'DoubleQLearning', 'MaxminQLearning', 'SpeedyQLearning', 'RLearning', 'RQLearning', 'WeightedQLearning',
         'QLambda', 'SARSALambda', 'SARSALambdaContinuous', 'TrueOnlineSARSALambda']


def check(ctx):
    for a in ALGOS:
        ctx.part(a, one, a)
        if a in ('QLambda', 'SARSALambda', 'SARSALambdaContinuous', 'TrueOnlineSARSALambda'):
            ctx.part(a + ' episode start', episode_start, a)
    ctx.part('WeightedQLearning next q', lambda ctx: refine(ctx, 'WeightedQLearning', '_next_q', 'td', 'WeightedQLearning_next_q', 'td-update', tag='WeightedQLearning._next_q', ret=True))


def episode_start(ctx, a, rule='td-update'):
    """Traces (and the remembered estimate) are cleared when an episode starts."""
    code, spec = refine(ctx, a, 'episode_start', 'td', a + '_episode_start', rule, tag=a + '.episode_start', ret=True)
    if spec.calls('reset', mk('attr', mk('self', code.r.cls.qual), 'e')):
        e = mk('attr', mk('self', code.r.cls.qual), 'e')
        other = any(T.contains(k, lambda x: x is e) for k in code.over) or any(k == 'e' or T.contains(o, lambda x: x is e) for o, k in code.heap)
        if other and not code.calls('reset'):
            ctx.unk(rule, a + '.episode_start reset', 'the trace is cleared in another way')
        else:
            cmp_calls(ctx, rule, a + '.episode_start reset', code.r.func.loc, code, spec, 'reset', recv=e)


def one(ctx, name):
    c = ctx.prog.need_cls(name)
    code, spec = run_both(ctx, c, 'fit', 'td', name, policy=Policy(opaque=['draw_action', '_next_q', 'get_action_features'] if name != 'RQLearning' else ['draw_action', 'get_action_features']))
    if code is None:
        ctx.unk('td-update', name, 'fit not found')
        return
    w = code.r.func.loc
    s = mk('self', c.qual)
    for k in spec.over:
        a = code.over.get(k)
        if a is None:
            ctx.unk('td-update', '%s %s' % (name, T.show(k)), 'not written in place')
            continue
        cmp_values(ctx, 'td-update', '%s %s' % (name, T.show(k)), w, a, spec.over[k], T.show(k))
    for (o, k), v in spec.heap.items():
        if o is s and (o, k) not in ctor_seed(ctx, c):
            cmp_attr(ctx, 'td-update', name, w, code, spec, k, c)
        elif o.op == 'attr':
            a = code.heap.get((o, k))
            if a is None:
                ctx.unk('td-update', '%s %s.%s' % (name, T.show(o), k), 'not assigned')
            else:
                cmp_values(ctx, 'td-update', '%s %s.%s' % (name, T.show(o), k), w, a, v, '%s.%s' % (T.show(o), k))
    for call in ('set_weights', 'update', 'draw_action'):
        if spec.calls(call):
            cmp_calls(ctx, 'td-update', '%s %s' % (name, call), w, code, spec, call)
    # the step size is consulted exactly as often as specified (it may decay per visit)
    par = lambda o: [x for x in o.calls('__call__') if not is_attr(x[0], 'policy') and not (x[0].op == 'param' and 'policy' in x[0].args[0])]
    n1, n2 = len(par(code)), len(par(spec))
    f = lambda o: sorted((T.show(x[0]), T.show(T.canon(x[3]))) for x in par(o))
    ctx.verdict(True if f(code) == f(spec) else (False if n1 != n2 and not any(murky(x[0]) for x in code.calls('__call__')) else None), 'td-parameter-calls', name, w,
                'step-size parameters are evaluated %d times per update, required %d' % (n1, n2), 'each schedule advanced once per visit')


def ctor_seed(ctx, c):
    s = mk('self', c.qual)
    return {(s, k) for k in ctor_heap(ctx, c)}
