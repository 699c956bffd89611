"""Refinement of the construction of sequences for recurrent agents (SequenceReplayMemory.get, PPO_BPTT._transform_to_sequences): window bounds,
episode and ring-buffer cuts, previous actions, padding, initial policy state and length of every returned component are compared in normal
form, for every sample index, with sa/specs/sequence.py."""
from ..rl import *
from ..spec import *

MIN_OBLIGATIONS = 5
R = 'sequence'


def parts(ctx, cls, method, sp, n):
    code, spec = run_both(ctx, cls, method, 'sequence', sp)
    tag = '%s.%s' % (cls, method)
    if code is None:
        ctx.unk(R, tag, 'not found')
        return
    w = code.r.func.loc
    cases = [(TRUE, '')]
    st = [x for x in atoms(code.ret, spec.ret) if 'is_stateful' in T.show(x) and x.op == 'attr']
    if st:
        cases = [({st[0]: TRUE}, ' (stateful)'), ({st[0]: FALSE}, ' (stateless)')]
    for facts, suffix in cases:
        a = T.assume(code.ret, facts) if suffix else code.ret
        b = T.assume(spec.ret, facts) if suffix else spec.ret
        if a.op != 'tuple' or b.op != 'tuple' or len(a.args) != len(b.args):
            ctx.unk(R, tag + suffix, 'components not identified')
            continue
        for i, (x, y) in enumerate(zip(a.args, b.args)):
            cmp_values(ctx, R, '%s%s component %d' % (tag, suffix, i), w, x, y, 'component %d' % i)


def check(ctx):
    ctx.part('memory', parts, 'SequenceReplayMemory', 'get', 'memory_get', 8)
    ctx.part('ppo', parts, 'PPO_BPTT', '_transform_to_sequences', 'ppo_sequences', 7)
