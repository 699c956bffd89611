"""Shared analysis of the experiment loop (sequential core)."""
from ..rl import *

ENTRY = ('learn', 'evaluate')


class RunLoop:
    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry
        I = self.I = Interp(ctx.prog, Policy(ctor=['CoreLogic']))
        c = self.cls = ctx.prog.need_cls('Core')
        r0 = run(ctx, c, '__init__', interp=I)
        if r0 is None or ctx.prog.find(c, entry) is None:
            raise AnalysisError('Core.%s vanished' % entry)
        self.r = run(ctx, c, entry, interp=I, state=r0.state)
        self.name = 'Core.' + entry
        self.env = [v for (o, k), v in r0.state.heap.items() if k == 'env']
        self.agent = [v for (o, k), v in r0.state.heap.items() if k == 'agent']
        self.env = self.env[0] if self.env else mk('param', 'env')
        self.agent = self.agent[0] if self.agent else mk('param', 'agent')
        self.loop = find_loop(self.r.events, lambda b: any(self.is_call(e, self.env, 'step') for e in b))
        if self.loop is None:
            raise AnalysisError('%s: no loop driving the environment found' % self.name)
        self.where = '%s:%s' % (self.loop.file, self.loop.func)
        self.body = [x for k in self.loop.kids for x in flat(k)]
        self.lid = self.loop.lid
        self.table = loop_table(I, self.lid)
        g = self.guard0 = self.loop.guard
        self.steps = [e for e in self.body if self.is_call(e, self.env, 'step')]
        self.draws = [e for e in self.body if self.is_call(e, self.agent, 'draw_action')]
        self.resets = [e for e in self.body if self.is_call(e, self.env, 'reset')]
        self.starts = [e for e in self.body if self.is_call(e, self.agent, 'episode_start')]
        self.fits = [e for e in self.body if self.is_call(e, self.agent, 'fit')]
        self.appends = [e for e in self.body if e.kind == 'call' and e.name == 'append' and self.is_dataset(e.recv)]
        self.clears = [e for e in self.body if e.kind == 'call' and e.name == 'clear' and self.is_dataset(e.recv)]
        self.thetas = [e for e in self.body if e.kind == 'call' and e.name == 'append_theta' and self.is_dataset(e.recv)]

    def is_call(self, e, recv, name):
        return e.kind == 'call' and e.name == name and e.get('recv') is recv

    def is_dataset(self, n):
        return n is not None and n.op == 'new' and n.args[0].endswith('.Dataset')

    def rel(self, e):
        """Guard of the event relative to one loop iteration."""
        cond = self.loop.cond
        base = self.guard0 if cond is None else t_and([self.guard0, cond])
        g = guard_rel(e.guard, base)
        # the loop condition itself may have been split into its parts
        return g

    def ready(self):
        """The pieces every rule needs, or None with the reason."""
        for nm, l in (('env.step', self.steps), ('agent.draw_action', self.draws), ('dataset.append', self.appends)):
            if len(l) != 1:
                return '%d %s call sites in the loop body' % (len(l), nm)
        if len(self.appends[0].args) < 1 or self.appends[0].args[0].op != 'tuple' or len(self.appends[0].args[0].args) != 8:
            return 'the appended sample is not a literal 8-tuple'
        return None

    @property
    def S(self):
        return self.appends[0].args[0].args

    @property
    def E(self):
        return self.steps[0].node

    @property
    def A(self):
        return self.draws[0].node

    def idx(self, n, i):
        return mk('index', n, const(i))

    def preprocessed(self, n, raw):
        """n == all core preprocessors applied, in order, to raw."""
        if n.op != 'loop':
            return None if murky(n) else False
        lid, lv, init, step = n.args
        info = self.I.LOOPS.get(lid)
        it = info['iter'] if info else None
        if it is None:
            return None
        if not (is_attr(it, 'core_preprocessors', '_core_preprocessors') and it.args[0] is self.agent):
            return False
        if same(init, raw) is not True:
            return False
        want = mk('elem', it, lid)
        if step.op == 'call':
            k, nm, a, kw = T.call_parts(step)
            if k == 'meth' and nm == '__call__' and a[0] is want and len(a) == 2 and a[1] is lv:
                return True
        return False
