"""Shared queries used by the rules."""
import ast
from . import terms as T
from .terms import mk, const, NONE, TRUE, FALSE, N
from .program import Class, AnalysisError
from .interp import Interp, Policy, flat, calls, t_and, UNDEF

UNKNOWN_OPS = {'opaque', 'noreturn', 'yieldval', 'undef', 'lastval'}


def murky(n):
    """The value contains something the analysis did not see through."""
    return T.contains(n, lambda x: x.op in UNKNOWN_OPS)


def same(a, b):
    """True / False / None (undecided)."""
    if T.equal(a, b):
        return True
    if murky(a) or murky(b):
        return None
    return False


def all3(xs):
    xs = list(xs)
    if any(x is False for x in xs):
        return False
    if any(x is None for x in xs):
        return None
    return True


def is_attr(n, *names):
    return n.op == 'attr' and n.args[1] in names


def run(ctx, cls, method, policy=None, state=None, args=None, heap=None, types=None, interp=None):
    c = ctx.prog.need_cls(cls) if isinstance(cls, str) else cls
    f = ctx.prog.find(c, method)
    if f is None:
        return None
    I = interp or Interp(ctx.prog, policy)
    r = I.run(f, c, state=state, args=args, heap=heap, types=types)
    ctx.used(I)
    r.func = f
    r.cls = c
    return r


def walk_ev(events, path=()):
    """(event, path) where path is the tuple of enclosing (compound event, branch index)."""
    for e in events:
        yield e, path
        for i, k in enumerate(e.kids):
            yield from walk_ev(k, path + ((e, i),))


def find_loop(events, pred):
    """Innermost loop event whose body satisfies pred(list of flat events)."""
    best = None
    for e in flat(events):
        if e.kind == 'loop':
            body = [x for k in e.kids for x in flat(k)]
            if pred(body):
                inner = find_loop([y for k in e.kids for y in k], pred)
                best = inner or e
                break
    return best


def sub_lv(n, table, which):
    """Replace loop variables by their initial (0) or next (1) value."""
    return T.subst(n, lambda x: table[x][which] if x in table else None)


def loop_table(I, lid):
    return {lv: v for (l, lv), v in I.LV.items() if l is lid}


def guard_rel(g, base):
    """Conjuncts of guard g that are not conjuncts of base."""
    gs = list(g.args) if g.op == 'and' else ([] if g is TRUE else [g])
    bs = {x.id for x in (base.args if base.op == 'and' else ([] if base is TRUE else [base]))}
    return t_and([x for x in gs if x.id not in bs])


def loc(e):
    return '%s:%s' % (e.file, e.func.split('.', 1)[-1] if False else e.func)


def classes_under(ctx, base, concrete=True):
    b = ctx.prog.need_cls(base)
    return [b] + ctx.prog.subclasses(b)
