"""Refinement against specification programs.

A specification program (sa/specs/*.py) states, in plain Python over the public roles of a class, what an
operation must compute.  It is analysed by the same abstract interpreter as the code, on the same class, and
the observable effects of both (final attribute values, in-place writes, calls on collaborators with their
guards, returned value) are compared in normal form.  Neither program is run."""
import ast
import os
from . import terms as T
from .terms import mk, const, NONE, TRUE, FALSE, N
from .program import Module, Func, Class, AnalysisError
from .interp import Interp, Policy, State, flat, t_and, UNDEF, abstract, READERS

HERE = os.path.dirname(os.path.abspath(__file__))
_mods = {}


def spec_module(name):
    if name not in _mods:
        p = os.path.join(HERE, 'specs', name + '.py')
        with open(p, encoding='utf-8') as fh:
            tree = ast.parse(fh.read(), p)
        _mods[name] = Module('sa.specs.' + name, p, 'sa/specs/%s.py' % name, tree, False)
    return _mods[name]


def spec_func(modname, fname, cls, prog=None):
    m = spec_module(modname)
    f = m.functions.get(fname)
    if f is None:
        raise AnalysisError('specification %s.%s missing' % (modname, fname))
    if cls is None:
        return f
    g = Func(fname, f.node, m, None)
    first = f.node.args.args[0].arg if f.node.args.args else ''
    g.kind = {'self': 'method', 'cls': 'class'}.get(first, 'static')
    g.cls = None
    # super() inside a specification named Class_method resolves from Class
    if prog is not None and any(isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(f.node)):
        own = [c for c in prog.mro(cls) if isinstance(c, Class) and fname.startswith(c.name + '_')]
        if own:
            g.cls = max(own, key=lambda c: len(c.name))
    return g


# ------------------------------------------------------------------ erasure
STABLE_ATTRS = set('''size shape ndim n low high info gamma horizon dt device dtype weights_size mdp_info action_space observation_space policy
n_actions n_states _n_actions input_shape output_shape backend is_episodic'''.split())



def epoch_name(ep, prog=None, attr=None, meth=None):
    """'after:<method>' of the last call that could have changed the object, or None when not determined."""
    if isinstance(ep, tuple) and len(ep) == 5 and isinstance(ep[4], str):
        if ep[4] in READERS or prog is not None and ep[4] in prog.readers():
            return None
        if prog is not None and (attr is not None and prog.unaffected(attr, ep[4]) or meth is not None and prog.commute(meth, ep[4])):
            return None
        return 'after:' + ep[4]
    return None


def drop_epochs(n):
    return T.subst(n, lambda x: mk('attr', drop_epochs(x.args[0]), x.args[1]) if x.op == 'attr' and len(x.args) > 2 else None)


def iter_count(it):
    """Number of iterations over an iterable."""
    if it.op == 'call':
        k, nm, a, kw = T.call_parts(it)
        if k == 'ext':
            if nm == 'builtins.range' and len(a) == 1:
                return T.canon(a[0])
            if nm == 'builtins.range' and len(a) == 2:
                return T.canon(T.t_bin('sub', a[1], a[0]))
            if nm == 'builtins.range' and len(a) == 3:
                if T.is_const(a[2], -1):
                    return T.canon(T.t_bin('sub', a[0], a[1]))
                return T.canon(T.steps_of(*a))
            if nm == 'builtins.zip' and len(a) > 1:
                return min((iter_count(x) for x in a), key=T.show)
            if nm in ('builtins.enumerate', 'builtins.zip', 'builtins.reversed', 'builtins.list', 'tqdm.tqdm') and a:
                return iter_count(a[0])
    if it.op == 'map' and it.args[2] is TRUE:
        return it.args[-1]
    if it is NONE or it.op == 'const':
        return it
    return T.canon(mk('call', mk('ext', 'builtins.len'), mk('tuple', it), mk('kwargs')))


class Eraser:
    """Alpha-renaming: loop identities, allocation and call sites, mutation epochs are forgotten, loop
    variables become de Bruijn indices of recursive (mu) terms."""

    def __init__(self, LV, interp=None, result=None):
        self.I = interp
        self.F = {}
        self.building = set()
        st = result.state if result is not None else None
        if st is not None:
            # fields of the objects created by the analysed function, as they are when it returns
            for (o, k), v in st.heap.items():
                if o.op == 'new':
                    self.F.setdefault(o, {})[k] = result.content(v)
            for ident in st.over:
                if ident.op == 'attr' and ident.args[0].op == 'new' and ident.args[1] not in self.F.get(ident.args[0], {}):
                    self.F.setdefault(ident.args[0], {})[ident.args[1]] = result.content(ident)
        self.LV = {lv: v for (lid, lv), v in LV.items()}
        self.memo = {}
        self.ends = {}      # final values of loops: which loops they come from
        self.budget = 40000

    def __call__(self, n, stack=()):
        key = (n.id, stack)
        r = self.memo.get(key)
        if r is None:
            self.budget -= 1
            if self.budget < 0:
                return mk('opaque', 'budget')
            r = self._e(n, stack)
            self.memo[key] = r
        return r

    def new(self, n, stack):
        """An object constructed here: its class and constructor arguments by parameter name."""
        q = n.args[0]
        I = self.I
        if n in self.building:
            return mk('new', q)
        self.building.add(n)
        fields = [('.' + k, self(v, stack)) for k, v in sorted(self.F.get(n, {}).items())]
        self.building.discard(n)
        if I is None or n not in I.NEW or q not in I.prog.classes:
            return mk('new', q, *fields)
        av = I.NEW[n]
        init = I.prog.find(I.prog.classes[q], '__init__')
        if av is None or init is None:
            return mk('new', q, *fields)
        args, kw = av
        a = init.node.args
        names = [x.arg for x in a.args][1:]
        pairs = []
        for i, x in enumerate(args):
            pairs.append((names[i] if i < len(names) and not any(y.op == 'star' for y in args[:i + 1]) else '*%d' % i, self(x, stack)))
        given = {k for k, _ in pairs} | set(kw)
        for k, x in kw.items():
            pairs.append((k, self(x, stack)))
        if '**' not in kw and not any(x.op == 'star' for x in args):
            for nm, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                if nm not in given and isinstance(d, ast.Constant):
                    pairs.append((nm, const(d.value)))
        return mk('new', q, *(sorted(pairs, key=lambda p: p[0]) + fields))

    def _e(self, n, stack):
        op, a = n.op, n.args
        if op in ('const', 'sym', 'param', 'ext', 'self', 'func', 'cls', 'module'):
            return n
        if op == 'lv':
            if n in stack:
                return mk('bvar', len(stack) - 1 - stack.index(n))
            v = self.LV.get(n)
            if v is None:
                return mk('opaque', 'lv')
            if len(stack) > 4:
                return mk('opaque', 'deep recurrence')
            s2 = stack + (n,)
            step = self(v[1], s2)
            if step is mk('bvar', 0):
                return self(v[0], stack)
            return mk('mu', self(v[0], stack), step)
        if op == 'loop':
            lid, lv, init, step = a
            s2 = stack + (lv,)
            m = mk('mu', self(init, stack), self(step, s2))
            if not stack and self.I is not None and lid in self.I.LOOPS:
                self.ends.setdefault(m, set()).add(lid)
            return m
        if op == 'new':
            return self.new(n, stack)
        if op == 'obj':
            return mk('opaque', 'obj')
        if op == 'loopid':
            return mk('L')
        if op == 'exc':
            return mk('exc', a[1])
        if op == 'closure':
            return mk('opaque', 'closure')
        if op == 'copyof':
            return mk('copyof', self(a[0], stack), a[1])
        if op == 'attr':
            ep = epoch_name(a[2], self.I and self.I.prog, attr=a[1]) if len(a) > 2 and a[1] not in STABLE_ATTRS and not (self.I and a[1] in self.I.prog.fixed_attrs()) else None
            return mk('attr', self(a[0], stack), a[1], ep) if ep else mk('attr', self(a[0], stack), a[1])
        if op == 'call':
            ep = epoch_name(a[3], self.I and self.I.prog, meth=a[0].args[1] if a[0].op == 'meth' else None) if len(a) > 3 else None
            if a[0].op == 'meth' and a[0].args[1] == '__getitem__' and len(a[1].args) == 1:
                k = a[1].args[0]
                if k.op == 'idx' and k.args[1] is T.ZERO and k.args[3] is T.ONE:
                    return mk('elem', self(a[0].args[0], stack), mk('L'))
            r = (self(a[0], stack), mk('tuple', *[self(x, stack) for x in a[1].args]), mk('kwargs', *[(k, self(v, stack)) for k, v in a[2].args]))
            return mk('call', *(r + ((ep,) if ep else ())))
        new = []
        for x in a:
            if isinstance(x, N):
                new.append(self(x, stack))
            elif isinstance(x, tuple) and any(isinstance(y, N) for y in x):
                new.append(tuple(self(y, stack) if isinstance(y, N) else y for y in x))
            else:
                new.append(x)
        if op == 'idx':
            return mk('idx', new[0], *[T.canon(x) for x in new[1:]])
        if op in ('map', 'fillmap', 'lsum'):
            new[-1] = cnt = iter_count(new[-1])
            if cnt.op != 'const':
                # the body only runs when there is something to iterate over
                def inside(x):
                    if x.op == 'eq' and (x.args[0] is T.ZERO and T.canon(x.args[1]) is cnt or x.args[1] is T.ZERO and T.canon(x.args[0]) is cnt):
                        return FALSE
                    if x.op == 'lt' and x.args[0] is T.ZERO and T.canon(x.args[1]) is cnt or x.op == 'truth' and T.canon(x.args[0]) is cnt:
                        return TRUE
                    if x.op == 'phi' and T.canon(x.args[0]) is cnt:
                        return T.subst(x.args[1], inside)
                for k in range(1, len(new) - 1):
                    if op == 'fillmap' and k == 1:
                        continue
                    if isinstance(new[k], N) and any(x.op in ('eq', 'lt', 'truth', 'phi') for x in T.walk(new[k])):
                        new[k] = T.subst(new[k], inside)
        if op == 'map' and new[2] is TRUE and new[1].op == 'elem' and new[-1] is iter_count(new[1].args[0]):
            return new[1].args[0]
        if op == 'elem' and new[0].op == 'map' and new[0].args[2] is TRUE:
            return new[0].args[1]
        if op == 'slice':
            return T.t_slice(*new)
        if op == 'index':
            return T.t_index(*new)
        if op == 'phi':
            return T.t_phi(*new)
        if op == 'not':
            return T.t_not(new[0])
        if op in ('and', 'or'):
            return T.t_bool(op, new)
        if op in ('lt', 'le', 'eq', 'is', 'in'):
            return T.t_cmp(op, *new)
        return mk(op, *new)


# -------------------------------------------------------- three-valued equality
# constructs with many equivalent spellings the normal form does not unify
STRUCTURAL = {'mu', 'map', 'lsum', 'fillmap', 'cat', 'append', 'star', 'dict', 'matmul', 'mod', 'floordiv', 'opaque', 'exists', 'lastval',
              'upd', 'slice', 'set', 'genexp', 'copyof'}
STRUCT_FN = {'matmul', 'einsum', 'outer', 'gather', 'sort', 'argsort', 'cumsum', 'cat', 'stack', 'hstack', 'repeat', 'tile', 'transpose', 'where',
             'nonzero', 'unique', 'diag', 'norm', 'logsumexp', 'softmax', 'roll', 'flip', 'arange', 'prod', 'argmax', 'argmin', 'clip', 'maximum',
             'minimum', 'full', 'linspace', 'mean', 'sum', 'std', 'var', 'any', 'all', 'abs', 'sign'}
LOOPS = {'mu', 'map', 'lsum', 'fillmap', 'othercall', 'opaque', 'genexp', 'matmul', 'dict', 'set'}
_vocab = None


def vocabulary():
    """Identifiers (attributes, functions) used by the package at the pinned commit."""
    global _vocab
    if _vocab is None:
        p = os.path.join(HERE, 'vocabulary.txt')
        _vocab = set(open(p).read().split()) if os.path.exists(p) else set()
    return _vocab


def features(n):
    """(structural constructs, identifiers) occurring in an (erased) value."""
    s, ids = set(), set()
    for x in T.walk(n):
        if x.op in STRUCTURAL and not (x.op == 'mu' and cond_counter(x)):
            s.add(x.op)
        if x.op == 'f':
            if x.args[0] in STRUCT_FN:
                s.add('f:' + x.args[0])
        elif x.op == 'attr':
            ids.add(x.args[1])
        elif x.op == 'call':
            f = T.fname(x)
            if f in STRUCT_FN:
                s.add('f:' + f)
            elif f is None:
                k, nm, a, kw = T.call_parts(x)
                if k in ('ext', 'meth'):
                    ids.add(nm.split('.')[-1])
                else:
                    s.add('othercall')
        elif x.op == 'poly':
            pass
    return s, ids


def _leaves(c, out):
    c = T.strip(c)
    if c.op in ('not', 'and', 'or', 'inv', 'band', 'bor'):
        for x in c.args:
            _leaves(x, out)
    elif c.op == 'le':
        _leaves(mk('lt', c.args[1], c.args[0]), out)
    elif c.op == 'phi':
        for x in c.args:
            _leaves(x, out)
    elif c.op != 'const':
        k = T.canon(c)
        if T.is_len(k):
            k = mk('eq', *sorted((T.ZERO, k)))
        if k.op == 'poly':
            for m, _ in k.args[0]:
                for x, _ in m:
                    if T.is_bool(x):
                        out.setdefault(x.id, x)
        elif k.op != 'const':
            out.setdefault(k.id, k)


def atoms(*ns):
    """Boolean atoms the values branch on."""
    out = {}
    for n in ns:
        for x in T.walk(n):
            if x.op == 'phi':
                _leaves(x.args[0], out)
            elif x.op in ('not', 'and', 'or'):
                _leaves(x, out)
            elif x.op == 'upd' and T.is_bool(x.args[1]):
                _leaves(x.args[1], out)
            elif T.is_flag(x):
                _leaves(x, out)
    return list(out.values())


CROSS = {'sum', 'mean', 'argmax', 'argmin', 'sort', 'argsort', 'std', 'var', 'cumsum', 'prod', 'norm'}


def cross_element(x):
    return x.op == 'f' and x.args[0] in CROSS and any(T.contains(y, T.is_flag) for y in x.args[1:] if isinstance(y, N))


GIVEN = [[]]
TIER = ['quick']
ASSUMED = [[]]
METHOD = [None]


def assignments(ats, cap):
    """Consistent truth assignments of boolean atoms (any(x) vs x, order trichotomy, equality to different constants), or None if more than cap."""
    bad = {}
    for i, x in enumerate(ats):
        for j, y in enumerate(ats):
            if x.op == 'f' and x.args[0] == 'any' and len(x.args) > 1 and x.args[1] is y:
                bad.setdefault(max(i, j), []).append((i, False, j, True))
            tx, ty = [z if T.is_bool(z) or z.op == 'truth' else mk('truth', z) for z in (x, y)]
            if i < j and T.excludes(tx, ty):
                bad.setdefault(j, []).append((i, True, j, True))
            if i != j and T.entails(tx, ty):
                bad.setdefault(max(i, j), []).append((i, True, j, False))
    # one of <, ==, > holds
    tri = {}
    lts = {(x.args[0].id, x.args[1].id): i for i, x in enumerate(ats) if x.op == 'lt'}
    for i, x in enumerate(ats):
        if x.op == 'eq':
            j, k = lts.get((x.args[0].id, x.args[1].id)), lts.get((x.args[1].id, x.args[0].id))
            if j is not None and k is not None:
                tri.setdefault(max(i, j, k), []).append((i, j, k))
    out = [()]
    for i in range(len(ats)):
        nxt = []
        for v in out:
            for t in (True, False):
                w = v + (t,)
                if any(not (w[p] or w[q] or w[r]) for p, q, r in tri.get(i, ())):
                    continue
                if not any(w[p] is pv and w[q] is qv for p, pv, q, qv in bad.get(i, ())):
                    nxt.append(w)
        out = nxt
        if len(out) > cap:
            return None
    return out


def related(x, y):
    """Two boolean atoms constrain each other."""
    if x is y:
        return True
    return x.op in ('eq', 'lt') and y.op in ('eq', 'lt') and bool({q.id for q in x.args if q.op != 'const'} & {q.id for q in y.args if q.op != 'const'})


def exclusive(p, q):
    """Two conditions never hold together."""
    c = T.t_bool('and', [p, q])
    if T.canon(c) is FALSE or T.equal(p, T.t_not(q)) or T.equal(c, FALSE):
        return True
    ats = atoms(mk('not', p), mk('not', q))
    asg = assignments(ats, 256) if ats else None
    if not asg:
        return False
    return all(T.canon(T.assume(c, {x: (TRUE if v else FALSE) for x, v in zip(ats, vals)})) is FALSE for vals in asg)


def cap_for(*ns):
    n = sum(1 for x in ns for _ in T.walk(x))
    return (512 if n < 400 else 128) * (8 if TIER[0] == 'thorough' else 1)


def cases_equal(a, b):
    """Equality under every truth assignment of the boolean atoms (that satisfies GIVEN, the conditions of a normal return)."""
    given = GIVEN[0]
    ats = atoms(a, b, *given)
    if not ats:
        return False
    if ASSUMED[0]:
        mine = atoms(a, b)
        more = [g for g in ASSUMED[0] if any(related(x, y) for x in atoms(mk('not', g)) for y in mine)]
        if more:
            given = given + more
            ats = atoms(a, b, *[mk('not', g) for g in given])
    cap = cap_for(a, b, *given)
    asg = assignments(ats, cap)
    if asg is None and given:
        ats = atoms(a, b)
        given = []
        asg = assignments(ats, cap) if ats else None
    if not asg:
        return False
    loose = False
    for vals in asg:
        facts = {x: (TRUE if v else FALSE) for x, v in zip(ats, vals)}
        if any(T.canon(T.assume(g, facts)) is FALSE or T.assume(g, facts) is FALSE for g in given):
            continue
        x, y = T.assume(a, facts), T.assume(b, facts)
        if not T.equal(x, y):
            if not respelled(x, y):
                return False
            loose = True
    return None if loose else True


# the same quantity is often available under several of these names; a difference between them alone is not decisive
WHY = ['']


def _facts(g, val, out):
    """Atomic facts implied by g having truth value val; False when part of it is not atomic."""
    g = T.strip(g)
    if g.op == 'not':
        return _facts(g.args[0], FALSE if val is TRUE else TRUE, out)
    if g.op == 'and' and val is TRUE or g.op == 'or' and val is FALSE:
        return all([_facts(x, val, out) for x in g.args])
    if g.op == 'le':
        return _facts(mk('lt', g.args[1], g.args[0]), FALSE if val is TRUE else TRUE, out)
    if g.op in ('and', 'or', 'phi'):
        return False
    out[g] = val
    return True


# wrappers that keep the elements but change layout, type or storage
KINDS = {'shape': set('reshape squeeze unsqueeze ravel flatten view expand_dims atleast_1d atleast_2d atleast_3d swapaxes moveaxis transpose'.split()),
         'copy': set('copy clone deepcopy array'.split()),
         'dtype': set('astype type float double long int bool half'.split()),
         'host': set('numpy cpu'.split()),
         'device': set('cuda to'.split()),
         'detach': set('detach numpy item tolist'.split())}
KINDS['alloc'] = set('zeros ones zeros_like ones_like empty empty_like full arange where'.split())
RAW = [()]


def wrappers(n, kinds):
    """{function name: arguments} of the layout/type/storage wrappers of the given kinds in a value."""
    names = set().union(*[KINDS[k] for k in kinds])
    out = {}
    for x in T.walk(n):
        if x.op == 'call':
            k, nm, a, kw = T.call_parts(x)
            if k == 'other':
                continue
            base = nm.split('.')[-1]
            if k == 'ext' and nm.split('.')[0] not in ('numpy', 'torch', 'copy', 'builtins'):
                continue
            if base in names:
                out.setdefault(base, set()).add(mk('tuple', *[T.canon(y) for y in a[1:] + [v for k2, v in sorted(kw.items())]]))
        elif x.op == 'index' and T._trivial_index(x.args[1]) and 'shape' in kinds:
            out.setdefault('newaxis', set()).add(x.args[1])
    return out


def reshaped(a, b):
    """The code has other means of giving a value its dimensions than the specification."""
    def means(n):
        out = set()
        for x in T.walk(n):
            if x.op in ('list', 'tuple') and len(x.args) == 1:
                out.add('wrapped')
            elif x.op == 'slice':
                out.add('slice')
            elif x.op == 'f' and x.args[0] in ('stack', 'hstack', 'vstack', 'cat', 'outer', 'einsum', 'tile', 'repeat', 'matmul'):
                out.add(x.args[0])
            elif x.op == 'call':
                out |= {k for k, _ in x.args[2].args if isinstance(k, str) and (k.startswith('keepdim') or k in ('shape', 'size', 'ndmin'))}
                if x.args[0].op in ('ext', 'meth'):
                    nm = T.call_parts(x)[1].split('.')[-1]
                    if nm in ('stack', 'hstack', 'vstack', 'column_stack', 'outer', 'einsum', 'broadcast_to', 'expand', 'tile', 'repeat', 'meshgrid', 'ix_', 'expand_as', 'view_as', 'diag', 'triu_indices'):
                        out.add(nm)
            elif x.op == 'kw' and isinstance(x.args[0], str) and x.args[0].startswith('keepdim'):
                out.add('keepdim')
        return out
    return bool(means(a) - means(b))


def same_wrappers(a, b, kinds):
    """Equal values: are they also laid out and stored alike?"""
    wa, wb = wrappers(a, kinds), wrappers(b, kinds)
    if wa == wb:
        return True
    for k in kinds:
        fam = KINDS[k] | ({'newaxis', 'None'} if k == 'shape' else set())
        if any(f in wb for f in fam) and not any(f in wa for f in fam):
            WHY[0] = 'no %s' % k
            return None if k == 'shape' and reshaped(a, b) else False
    if {k: len(v) for k, v in wa.items()} == {k: len(v) for k, v in wb.items()}:
        res = set()
        for k in wa:
            x, y = sorted(wa[k] - wb[k], key=T.show), sorted(wb[k] - wa[k], key=T.show)
            for p, q in zip(x, y):
                res.add(_eq3(p, q))
                why = 'arguments of %s: %s, required %s' % (k, T.show(p), T.show(q))
        if res == {True}:
            return True
        if False in res and None not in res:
            WHY[0] = why
            return False
    WHY[0] = 'written with other layout operations'
    return None


def _pairs_poly(pa, pb, out, d):
    ra = {m: c for m, c in pa.items() if pb.get(m) != c}
    rb = {m: c for m, c in pb.items() if pa.get(m) != c}
    # monomials sharing most factors are compared with each other
    for m in sorted(ra, key=lambda m: -len(m)):
        if not rb:
            break
        best = max(rb, key=lambda q: (ra[m] == rb[q], len(m & q) * 2 - abs(len(m) - len(q))))
        x, y = m - best, best - m
        c1, c2 = ra[m], rb[best]
        if not (m & best) and not (len(x) == 1 and len(y) == 1):
            continue
        del rb[best]
        ra[m] = None
        if c1 == c2 and len(x) == 1 and len(y) == 1:
            (u, e), (v, f) = next(iter(x)), next(iter(y))
            if e == f:
                _pairs(u, v, out, d + 1)
                continue
        out.append((T.from_poly({x: c1}), T.from_poly({y: c2})))
    for m, c in ra.items():
        if c is not None:
            out.append((T.from_poly({m: c}), T.ZERO))
    for m, c in rb.items():
        out.append((T.ZERO, T.from_poly({m: c})))


def _pairs(a, b, out, d=0):
    if a is b or len(out) > 40:
        return
    if d > 60:
        out.append((a, b))
        return
    if a.op == 'poly' and b.op == 'poly':
        return _pairs_poly(dict(a.args[0]), dict(b.args[0]), out, d)
    if a.op != b.op or len(a.args) != len(b.args) or a.op in ('const', 'param', 'self', 'ext', 'bvar', 'sym', 'func', 'cls') or a.op == 'attr' and a.args[1] != b.args[1] or \
            a.op == 'f' and a.args[0] != b.args[0] or a.op == 'meth' and a.args[1] != b.args[1]:
        out.append((a, b))
        return
    if a.op == 'kwargs' and [k for k, _ in a.args] != [k for k, _ in b.args]:
        out.append((a, b))
        return
    if a.op == 'call' and ([k for k, _ in a.args[2].args] != [k for k, _ in b.args[2].args] or len(a.args[1].args) != len(b.args[1].args)) and a.args[0] is b.args[0]:
        out.append((a, b))
        return
    if a.op == 'index' and a.args[0] is b.args[0] and a.args[1].op == b.args[1].op == 'const':
        out.append((a, b))
        return
    for x, y in zip(a.args, b.args):
        if isinstance(x, N) and isinstance(y, N):
            _pairs(x, y, out, d + 1)
        elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            for p, q in zip(x, y):
                if isinstance(p, N) and isinstance(q, N):
                    _pairs(p, q, out, d + 1)
                elif p != q:
                    out.append((a, b))
                    return
        elif x != y:
            out.append((a, b))
            return


def residual(a, b):
    """Where two canonical values differ: pairs of corresponding sub-values without a common outermost operation."""
    out = []
    _pairs(a, b, out)
    return out


def eq3(a, b, strict=False):
    v = _eq3(a, b, strict)
    if v is True and RAW[0]:
        v = same_wrappers(a, b, RAW[0])
    return v


def under_given(a, b, strict):
    """Comparison in every case in which neither side rejects its input."""
    given = GIVEN[0]
    ats = atoms(*given)
    asg = assignments(ats, 512) if ats else None
    res = set()
    if asg:
        GIVEN[0] = []
        try:
            for vals in asg:
                facts = {x: (TRUE if v else FALSE) for x, v in zip(ats, vals)}
                g = [T.canon(T.assume(x, facts)) for x in given]
                if any(x is FALSE for x in g):
                    continue
                v = _eq3(T.assume(a, facts), T.assume(b, facts), strict)
                if os.environ.get('SA_RESLOG'):
                    open(os.environ['SA_RESLOG'], 'a').write('GIVEN %s %s %s %s\n' % (v, WHY[0], {T.show(x): T.show(y) for x, y in facts.items()}, [T.show(x) for x in g]))
                if v is False and not all(x is TRUE for x in g):
                    v = None
                if v is False:
                    return False
                res.add(v)
        finally:
            GIVEN[0] = given
    if res == {True}:
        return True
    WHY[0] = 'values differ only on inputs that may be rejected'
    return None


def _eq3(a, b, strict=False):
    """True: same value. False: both sides understood and different. None: not decided."""
    WHY[0] = ''
    if a is b or T.equal(a, b):
        return True
    ca, cb = T.canon(a), T.canon(b)
    c = cases_equal(a, b)
    if c is None:
        return None
    if c:
        WHY[0] = 'flags under a reduction'
        return None if T.contains(mk('tuple', ca, cb), cross_element) else True
    if GIVEN[0] and assignments(atoms(a, b, *GIVEN[0]), cap_for(a, b, *GIVEN[0])) is None:
        return under_given(a, b, strict)
    bad = lambda y: {x for x in T.walk(y) if x.op in ('opaque', 'undef', 'noreturn', 'yieldval', 'lastval')}
    if all(x.op == 'undef' for x in bad(ca)) and bad(ca) == bad(cb):
        pass
    elif T.contains(ca, lambda x: x.op in ('opaque', 'undef', 'noreturn', 'yieldval', 'lastval')) or \
       T.contains(cb, lambda x: x.op in ('opaque', 'undef', 'noreturn', 'yieldval', 'lastval')):
        WHY[0] = 'not seen through: %s' % sorted({'%s:%s' % (x.op, x.args[0] if x.args and isinstance(x.args[0], str) else '') for y in (ca, cb) for x in T.walk(y) if x.op in ('opaque', 'undef', 'noreturn', 'yieldval', 'lastval')})
        return None
    fa, ia = features(ca)
    fb, ib = features(cb)
    if not strict:
        # alternative spellings exist for these constructs: decisive only when the code uses no construct foreign to the specification
        extra = {x for x in fa - fb if not x.startswith('f:')}
        lost = {x for x in fb - fa if not x.startswith('f:')}
        if extra or (lost & LOOPS and ca.op != 'const'):
            WHY[0] = 'constructs differ: code %s, specification %s' % (sorted(fa - fb), sorted(fb - fa))
            return None
    new = ia - ib - vocabulary()
    if new:
        WHY[0] = 'unknown names %s' % sorted(new)[:5]
        return None
    if not strict:
        # a function outside the specification that merely re-expresses it cannot be excluded
        odd = {'f:matmul', 'f:einsum', 'f:outer', 'f:gather', 'f:sort', 'f:argsort', 'f:cumsum', 'f:cat', 'f:stack', 'f:hstack', 'f:repeat', 'f:tile',
               'f:transpose', 'f:nonzero', 'f:unique', 'f:diag', 'f:norm', 'f:logsumexp', 'f:softmax', 'f:roll', 'f:flip', 'f:arange', 'f:full', 'f:linspace'}
        if (fa ^ fb) & odd - (set() if fa - fb else {'f:cat'}):
            WHY[0] = 'functions differ: %s' % sorted((fa ^ fb) & odd)
            return None
    if not strict:
        if respelled(a, b):
            return None
        if METHOD[0] is not None:
            own = lambda x: x.op == 'call' and x.args[0].op == 'meth' and x.args[0].args[1] == METHOD[0] and x.args[0].args[0].op == 'self'
            if T.contains(ca, own) != T.contains(cb, own):
                WHY[0] = 'written with and without recursion'
                return None
        if not decisive(a, b):
            return None
    return False


def nsize(n):
    return sum(1 for _ in T.walk(n))


SOFT = {'mu', 'mut', 'counter', 'map', 'fillmap', 'lsum', 'exists', 'lastval', 'lam', 'opaque', 'dict', 'set', 'genexp', 'append', 'star', 'loop', 'lv', 'new', 'closure', 'bound', 'fstr'}
DYNAMIC = {'builtins.' + x for x in 'getattr setattr hasattr vars globals locals eval exec map filter iter next'.split()} | {'operator.' + x for x in 'attrgetter itemgetter methodcaller'.split()}
MAX_PAIRS = 4


def sizey(n):
    """A quantity that counts something: often available under several names."""
    n = T.strip(n)
    if size_like(n) or n.op == 'idx':
        return True
    if n.op in ('attr', 'param'):
        m = n.args[1] if n.op == 'attr' else n.args[0]
        m = m.split('.')[-1].strip('_')
        return m in ('n', 'len', 'length', 'size', 'shape', 'dim', 'number') or m.startswith(('n_', 'num_', 'len_')) or m.endswith(('_size', '_dim', '_len', '_length', '_shape'))
    if n.op == 'index':
        return sizey(n.args[0])
    return False


def cond_counter(n):
    """A loop variable advancing by one only in the iterations that satisfy a condition on the iteration's element."""
    step = n.args[1]
    if n.args[0].op != 'const' or step.op != 'poly':
        return False
    ms = dict(step.args[0])
    if len(ms) != 2 or any(c != 1 for c in ms.values()) or any(len(m) != 1 or list(m)[0][1] != 1 for m in ms):
        return False
    xs = [list(m)[0][0] for m in ms]
    t = next((x for x in xs if x.op == 'truth'), None)
    return sorted(x.op for x in xs) == ['bvar', 'truth'] and t.args[0].op in ('elem', 'index')


def soft_pair(p, q, ia=frozenset(), ib=frozenset()):
    """A difference that may be a matter of spelling (ia, ib: sub-values of the whole on either side)."""
    if {p.op, q.op} == {'counter', 'idx'}:
        return False  # counts only some of the iterations
    own = lambda n: n.op == 'attr' and n.args[0].op == 'self' or n.op == 'param'
    if sizey(p) and sizey(q) and not (own(T.strip(p)) and own(T.strip(q))):
        return True
    if {p.op, q.op} <= {'list', 'tuple'} and p.args == q.args:
        return True
    if (p.op == 'kw') != (q.op == 'kw'):
        return True  # by name on one side, by position on the other
    if p.op == q.op == 'index' and p.args[0] is q.args[0] and p.args[1].op == q.args[1].op == 'const':
        # counted from either end
        i, j = p.args[1].args[1], q.args[1].args[1]
        if isinstance(i, int) and isinstance(j, int) and (i < 0) != (j < 0) and 0 not in (i, j):
            return True
    if p.op == q.op == 'call' and p.args[0] is q.args[0] and p.args[1:3] != q.args[1:3]:
        # passed by name on one side and by position on the other, or an explicit default
        x, y = [list(z.args[1].args) + [v for _, v in z.args[2].args] for z in (p, q)]
        xs, ys = {v.id for v in x}, {v.id for v in y}
        extra = [v for v in x if v.id not in ys] + [v for v in y if v.id not in xs]
        if all(v.op == 'const' for v in extra) and (len(x) != len(y) or not extra):
            return True
    plain = lambda x: x.op == 'fstr' and all(isinstance(y, str) or isinstance(y, N) and (y.op in ('const', 'param', 'idx') or y.op == 'attr' and y.args[0].op in ('self', 'param')) for y in x.args)
    soft = lambda x: x.op in SOFT and not plain(x) or x.op == 'ext' and x.args[0] in DYNAMIC
    if any(soft(x) and x.id not in ib for x in T.walk(p)) or any(soft(x) and x.id not in ia for x in T.walk(q)):
        return True
    return False


def subjects(x):
    if x.op == 'in' and x.args[1].op == 'const' and isinstance(x.args[1].args[1], str):
        return {x.args[0].id}
    if x.op in ('eq', 'lt', 'is', 'in', 'truth'):
        return {q.id for q in x.args if q.op != 'const'}
    if x.op == 'call' and x.args[0].op == 'ext' and x.args[1].args:
        return {x.args[1].args[0].id}
    return {x.id}


def known_relation(x, y):
    """The combinations of two atoms about the same thing are understood (excludes / entails cover them)."""
    k = sorted((x.op, y.op))
    if k == ['eq', 'eq'] or k == ['eq', 'lt'] or k == ['lt', 'lt']:
        return {q.id for q in x.args} == {q.id for q in y.args} or sum(q.op == 'const' for q in x.args) == 1 and sum(q.op == 'const' for q in y.args) == 1
    if k == ['is', 'truth'] or k == ['eq', 'truth'] or k == ['eq', 'is'] or k == ['eq', 'in'] or k == ['call', 'is']:
        return True
    return False


def access(z):
    """The truth of an input (parameter, or component of one): independent of every other input."""
    if z.op == 'truth':
        z = z.args[0]
    first = True
    while z.op in ('index', 'elem', 'attr'):
        if z.op == 'attr' and z.args[0].op == 'self':
            return False
        z, first = z.args[0], False
    return z.op == 'param' or z.op == 'call' and not first


def bounded(p, q, only_a, only_b):
    """A bound applied by a function (minimum, maximum, clip) on one side and by comparing on the other."""
    lim = lambda n: T.contains(n, lambda x: x.op == 'f' and x.args[0] in ('minimum', 'maximum', 'clip') or x.op == 'call' and T.fname(x) in ('minimum', 'maximum', 'clip', 'min', 'max'))
    cmp_ = lambda ats: any(x.op in ('lt', 'le', 'eq') for x in ats)
    return lim(p) and not lim(q) and cmp_(only_b) or lim(q) and not lim(p) and cmp_(only_a)


def decisive(a, b, _unified=False):
    """Some case (truth assignment of the conditions both sides branch on) in which the values differ in few, plain places."""
    hide = lambda x: mk('counter', T.show(x)) if x.op == 'mu' and cond_counter(x) else None
    count = lambda x: x.op == 'mu' and cond_counter(x)
    a, b = [T.subst(k, hide) if T.contains(k, count) else x for x, k in ((a, T.canon(a)), (b, T.canon(b)))]
    given = GIVEN[0]
    ats = atoms(a, b, *given)
    asg = assignments(ats, cap_for(a, b, *given)) if ats else [()]
    if asg is None:
        given = []
        ats = atoms(a, b)
        asg = assignments(ats, cap_for(a, b)) if ats else [()]
    if asg is None:
        asg, ats = [()], []
    tru = lambda z: z if T.is_bool(z) or z.op == 'truth' else mk('truth', z)
    xa, xb = {tru(z).id for z in atoms(a)}, {tru(z).id for z in atoms(b)}
    tt = [tru(z) for z in ats]
    only_a = [z for z in tt if z.id in xa and z.id not in xb]
    only_b = [z for z in tt if z.id in xb and z.id not in xa]
    foreign = None
    isin = lambda z: z.op == 'call' and z.args[0] is mk('ext', 'builtins.isinstance') and len(z.args[1].args) == 2
    if not _unified:
        pairs = {}
        for z in only_a:
            ws = [w for w in only_b if isin(z) and isin(w) and w.args[1].args[1] is z.args[1].args[1]]
            if len(ws) == 1 and sum(isin(v) and v.args[1].args[1] is z.args[1].args[1] for v in only_a) == 1:
                pairs[ws[0].id] = z
        if pairs:
            # the same test of what both sides compute at this point: taken with the same outcome
            return decisive(a, T.subst(T.canon(b), lambda x: pairs.get(x.id)), True)
    if only_a and only_b:
        # a condition was replaced by another one: understood only when the two are related by order or equality
        rel = lambda z, o: any(known_relation(z, w) for w in o if subjects(z) & subjects(w)) or access(z) and any(access(w) for w in o)
        if not (all(rel(z, only_b) or rel(z, [w for w in tt if w.id in xb]) for z in only_a) and all(rel(z, only_a) or rel(z, [w for w in tt if w.id in xa]) for z in only_b)):
            if not _unified and other_condition(a, b, only_a, only_b):
                return True
            WHY[0] = 'branches on other conditions: %s, specified %s' % ([T.show(z) for z in only_a][:3], [T.show(z) for z in only_b][:3])
            foreign = True
    why = None
    cases, ia, ib = [], set(), set()
    for vals in asg:
        facts = {x: (TRUE if v else FALSE) for x, v in zip(ats, vals)}
        if any(T.canon(T.assume(g, facts)) is FALSE or T.assume(g, facts) is FALSE for g in given):
            continue
        pos = [z for z, v in zip(tt, vals) if v]
        if any(z.op == 'is' and z.args[1] is T.NONE and T.strip(z.args[0]).op == 'call' and (z.id in xa) != (z.id in xb) for z in pos):
            continue  # what a call returns is None on one side only
        if any(subjects(pos[i]) & subjects(pos[j]) and not known_relation(pos[i], pos[j]) and pos[i].op == pos[j].op == 'call' for i in range(len(pos)) for j in range(i)):
            continue
        x, y = T.canon(T.assume(a, facts)), T.canon(T.assume(b, facts))
        ia |= {z.id for z in T.walk(x)}
        ib |= {z.id for z in T.walk(y)}
        cases.append((vals, x, y))
    for vals, x, y in cases:
        if T.contains(x, from_end) != T.contains(y, from_end) or T.contains(x, from_end):
            x, y = unlen(x), unlen(y)
        if T.equal(x, y) or respelled(x, y):
            continue
        rs = residual(x, y)
        agree = lambda p, q: any(c in (TRUE, FALSE) and any((z is x or z.op == 'truth' and z.args[0] is x) and bool(v) == (c is TRUE) for z, v in zip(tt, vals)) for c, x in ((p, q), (q, p)))
        soft = [pq for pq in rs if soft_pair(*pq, ia, ib) or bounded(*pq, only_a, only_b) or agree(*pq)]
        n = len(set(rs))
        if os.environ.get('SA_RESLOG'):
            open(os.environ['SA_RESLOG'], 'a').write('%d %d %s %s [%s] ## %s\n' % (n, len(soft), foreign, METHOD[0], ' '.join('%s=%d' % (T.show(z)[:200], v) for z, v in zip(ats, vals)) if os.environ.get('SA_RESFULL') else '', ' ;; '.join('%s <> %s' % (T.show(p)[:120], T.show(q)[:120]) for p, q in rs[:4])))
        if n <= MAX_PAIRS and not soft and not foreign:
            return True
        if n > MAX_PAIRS and not foreign and single_replacement(x, y, [pq for pq in dict.fromkeys(rs) if pq not in soft]):
            return True
        why = why or ('differs in %d places' % n if not soft else 'differs in how it is built: %s / %s' % (T.show(soft[0][0])[:60], T.show(soft[0][1])[:60]))
    WHY[0] = WHY[0] if foreign else why or 'no feasible case in which the values differ'
    return False


def other_condition(a, b, only_a, only_b):
    """The values are the same but for a condition, which differs from the specified one in one plain part."""
    pairs = {}
    own = lambda n: T.strip(n).op == 'attr' and T.strip(n).args[0].op == 'self'
    flag = lambda n: T.is_bool(n) or n.op == 'truth' or n in (TRUE, FALSE)
    for z in only_a:
        ws = []
        for w in only_b:
            if w.op == z.op and w.id not in pairs:
                rs = set(residual(T.canon(z), T.canon(w)))
                ia, ib = {x.id for x in T.walk(z)}, {x.id for x in T.walk(w)}
                if len(rs) <= 2 and not any(p is z or soft_pair(p, q, ia, ib) or own(p) and own(q) or flag(p) or flag(q) for p, q in rs):
                    ws.append(w)
        if len(ws) != 1:
            return False
        pairs[ws[0].id] = z
    if len(pairs) != len(only_b):
        return False
    raw = lambda z: z.args[0] if z.op == 'truth' else z
    for w in only_b:
        if w.op == 'truth':
            pairs[w.args[0].id] = raw(pairs[w.id])
    c = T.canon(T.subst(T.canon(b), lambda x: pairs.get(x.id)))
    if T.equal(a, c):
        return True
    # the conditions may well agree: the values then have to
    return not any(subjects(z) & subjects(w) for z in only_a for w in only_b) and decisive(a, c, True)


def single_replacement(x, y, pairs):
    """The two values differ by one plain part, exchanged for another throughout."""
    pairs = sorted(pairs, key=lambda pq: sum(len(T.show(z)) for z in pq))[:6]
    for u, v in pairs:
        if u.op == 'const' and v.op == 'const' or len(T.show(u)) > 400:
            continue
        if T.equal(T.canon(T.subst(x, lambda z: v if z is u else None)), y) or T.equal(x, T.canon(T.subst(y, lambda z: u if z is v else None))):
            return True
    return False


def respelled(a, b):
    """Equal up to constructs with several spellings the normal form does not relate: not decisive."""
    ca, cb = T.canon(a), T.canon(b)
    if T.contains(ca, counted) and T.equal(uncount(ca), uncount(cb)):
        WHY[0] = 'iteration counts spelled differently'
        return True
    ka, kb = selections(ca), selections(cb)
    if ka != kb and T.equal(unselect(a, ka ^ kb), unselect(b, ka ^ kb)):
        WHY[0] = 'selection before or after the arithmetic'
        return True
    return False


def _no_len(b, base):
    """Bound of a selection counted from the end, without naming the length."""
    if b.op != 'poly':
        return b
    ln = T.canon(mk('call', mk('ext', 'builtins.len'), mk('tuple', base), mk('kwargs')))
    ms = dict(b.args[0])
    for m, c in list(ms.items()):
        if c == 1 and len(m) == 1 and list(m)[0] == (ln, 1) and len(ms) > 1:
            del ms[m]
            return mk('poly', frozenset(ms.items()))
    return b


def from_end(n):
    return n.op == 'index' and n.args[1].op == 'slice' and any(isinstance(z, N) and _no_len(z, n.args[0]) is not z for z in n.args[1].args)


def unlen(n):
    def f(x):
        if from_end(x):
            return T.canon(mk('index', unlen(x.args[0]), mk('slice', *[unlen(_no_len(z, x.args[0])) for z in x.args[1].args])))
    return T.subst(n, f)


def size_like(n):
    """The length of something, without arithmetic."""
    return T.is_len(n) or n.op == 'attr' and n.args[1] in ('shape', 'size') or n.op == 'index' and n.args[0].op == 'attr' and n.args[0].args[1] == 'shape'


def counted(n):
    return n.op in ('map', 'fillmap', 'lsum', 'idx') or n.op == 'f' and n.args[0] == 'arange'


def uncount(n):
    """Forget which object's length bounds an iteration."""
    sz = mk('sym', 'size')

    memo = {}

    def f(x):
        if x.op in ('map', 'fillmap', 'lsum') and isinstance(x.args[-1], N) and size_like(x.args[-1]):
            return mk(x.op, *([T.subst(y, f, memo) if isinstance(y, N) else y for y in x.args[:-1]] + [sz]))
        if x.op == 'idx' and size_like(x.args[2]):
            return mk('idx', x.args[0], x.args[1], sz, x.args[3])
        if x.op == 'f' and x.args[0] == 'arange' and len(x.args) == 2 and size_like(x.args[1]):
            return mk('f', 'arange', sz)
    return T.subst(n, f, memo)


def selections(n):
    """Selections applied to composite (arithmetic) values."""
    return {x for x in T.walk(n) if x.op == 'index' and x.args[0].op == 'poly'}


def unselect(n, sel):
    keys = {x.args[1] for x in sel}
    return T.subst(n, lambda x: x.args[0] if x.op == 'index' and T.canon(x.args[1]) in keys else None)


# ---------------------------------------------------------------- const fields
def const_fields(ctx, cls):
    """Attributes of self assigned only while constructing."""
    prog = ctx.prog
    key = ('cf', cls.qual)
    cache = prog.__dict__.setdefault('_cf', {})
    if key in cache:
        return cache[key]
    init, other = set(), set()
    fam = [c for c in prog.mro(cls) if isinstance(c, Class)]
    for c in fam:
        for f in list(c.methods.values()) + list(c.setters.values()):
            tgt = init if f.name == '__init__' else other
            for x in ast.walk(f.node):
                ts = []
                if isinstance(x, ast.Assign):
                    ts = x.targets
                elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                    ts = [x.target]
                elif isinstance(x, (ast.For,)):
                    ts = [x.target]
                for t in ts:
                    for y in ast.walk(t):
                        if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id in ('self', 'cls'):
                            tgt.add(y.attr)
                        if isinstance(y, ast.Subscript) and isinstance(y.value, ast.Attribute):
                            other.add(y.value.attr)
    r = init - other
    cache[key] = r
    return r


SIMPLE = {'param', 'const', 'attr', 'self', 'add', 'sub', 'mul', 'div', 'neg', 'phi', 'is', 'eq', 'lt', 'le', 'not', 'and', 'or', 'pow', 'index', 'floordiv', 'mod'}


def ctor_heap(ctx, cls, policy=None):
    prog = ctx.prog
    cache = prog.__dict__.setdefault('_ch', {})
    if cls.qual in cache:
        return cache[cls.qual]
    out = {}
    f = prog.find(cls, '__init__')
    if f is not None:
        I = Interp(prog, policy or Policy())
        try:
            r = I.run(f, cls)
            s = mk('self', cls.qual)
            if r.state is not None:
                for (o, k), v in r.state.heap.items():
                    if o is s and k in const_fields(ctx, cls):
                        c = r.content(v)
                        if all(x.op in SIMPLE for x in T.walk(c)) and not T.contains(c, lambda x: x.op == 'attr' and x.args[0] is s):
                            out[k] = T.subst(c, lambda x: mk('param', 'ctor.' + x.args[0]) if x.op == 'param' else None)
        except RecursionError:
            pass
    cache[cls.qual] = out
    return out


# ------------------------------------------------------------------- comparison
class Obs:
    """Observable effects of one analysed run."""

    def __init__(self, r, E=None):
        self.r = r
        self.I = r.interp
        self.E = E or Eraser(self.I.LV, self.I, r)
        self.ret = self.E(r.ret)
        g = [self.E(e.guard) for e in flat(r.events) if e.kind == 'raise' and e.guard is not FALSE]
        self.fuzzy = False
        self.raises = T.t_bool('or', g) if len(g) > 1 else (g[0] if g else FALSE)
        if T.contains(self.raises, lambda x: x.op in ('opaque', 'undef', 'sym', 'exists', 'lastval')):
            self.raises = FALSE
            self.fuzzy = True
        # what asserted conditions guarantee (outside loops)
        self.asserts = []
        for e in r.events:
            if e.kind == 'assert':
                c = self.E(T.t_bool('or', [T.t_not(e.guard), e.cond]))
                if c.op != 'const' and not T.contains(c, lambda x: x.op in ('opaque', 'undef', 'sym', 'exists', 'lastval')):
                    self.asserts.append(c)
        self.heap, self.over = {}, {}
        if r.state is not None:
            for (o, k), v in r.state.heap.items():
                if o.op != 'new':
                    self.heap[(self.E(o), k)] = self.E(r.content(v))
            for ident, v in r.state.over.items():
                if ident.op in ('attr', 'param', 'index', 'elem') and T.contains(ident, lambda x: x.op in ('self', 'param')):
                    self.over[self.E(ident)] = self.E(r.content(ident))

    def calls(self, name, recv=None):
        out = []
        for e in flat(self.r.events):
            if e.kind == 'call' and e.name == name and e.guard is not FALSE:
                rc = self.E(e.recv) if e.recv is not None else None
                if recv is None or rc is recv or (callable(recv) and not isinstance(recv, N) and recv(rc)):
                    out.append((rc, [self.E(x) for x in e.args], {k: self.E(v) for k, v in e.kw.items()}, self.E(e.guard), e))
        return out


def run_both(ctx, cls, method, specmod, specname, policy=None, heap=True, types=None, code_args=None, extra=None, module=''):
    prog = ctx.prog
    c = prog.need_cls(cls) if isinstance(cls, str) else cls
    if c is None:
        return run_funcs(ctx, method, specmod, specname, policy, module)
    f = prog.find(c, method)
    if f is None and method.endswith('_setter'):
        f = next((k.setters[method[:-7]] for k in prog.mro(c) if isinstance(k, Class) and method[:-7] in k.setters), None)
    if f is None:
        return None, None
    sf = spec_func(specmod, specname, c, prog)
    prog.extra_modules[sf.module.name] = sf.module
    h = ctor_heap(ctx, c) if heap else {}
    s = mk('self', c.qual)
    hp = {(s, k): v for k, v in h.items()}
    hp.update(extra or {})
    names = [x.arg for x in f.node.args.args][(0 if f.kind in ('static', 'function') else 1):]
    snames = [x.arg for x in sf.node.args.args]
    meth = snames[:1] in (['self'], ['cls'])
    if meth:
        snames = snames[1:]
    amap = {n: mk('param', snames[i] if i < len(snames) else n) for i, n in enumerate(names)}
    amap.update(code_args or {})
    I = Interp(prog, policy or Policy())
    r = I.run(f, c, heap=dict(hp), args=amap, types={n: types[snames[i]] for i, n in enumerate(names) if types and i < len(snames) and snames[i] in types} or None)
    I2 = Interp(prog, policy or Policy())
    I2.active = (f.node,)
    rs = I2.run(sf, c if meth else None, heap=dict(hp), selfn=s if meth else None, args={k: v for k, v in amap.items() if k in snames and code_args and k in code_args}, types=types)
    ctx.used(I)
    r.func, r.cls, rs.func = f, c, sf
    return Obs(r), Obs(rs)


def run_funcs(ctx, name, specmod, specname, policy=None, module=''):
    """Module-level function against a specification function."""
    prog = ctx.prog
    try:
        f = prog.func(module, name)
    except AnalysisError:
        f = None
    if f is None:
        return None, None
    sf = spec_func(specmod, specname, None)
    prog.extra_modules[sf.module.name] = sf.module
    names = [x.arg for x in f.node.args.args]
    snames = [x.arg for x in sf.node.args.args]
    amap = {n: mk('param', snames[i] if i < len(snames) else n) for i, n in enumerate(names)}
    I = Interp(prog, policy or Policy())
    r = I.run(f, None, args=amap)
    I2 = Interp(prog, policy or Policy())
    I2.active = (f.node,)
    rs = I2.run(sf, None)
    ctx.used(I)
    r.func, r.cls, rs.func = f, None, sf
    return Obs(r), Obs(rs)


class normal:
    """Comparisons inside hold for the inputs both sides accept (neither raises)."""

    def __init__(self, code, spec, raw=()):
        self.raw = raw
        self.g = [T.t_not(o.raises) for o in (code, spec) if o.raises is not FALSE]
        self.s = spec.asserts
        self.m = getattr(getattr(code.r, 'func', None), 'name', None)

    def __enter__(self):
        self.olds, ASSUMED[0] = ASSUMED[0], self.s
        self.oldm, METHOD[0] = METHOD[0], self.m
        self.old, GIVEN[0] = GIVEN[0], self.g
        self.oldraw, RAW[0] = RAW[0], self.raw

    def __exit__(self, *a):
        GIVEN[0] = self.old
        ASSUMED[0] = self.olds
        METHOD[0] = self.oldm
        RAW[0] = self.oldraw


def cmp_values(ctx, rule, construct, where, code, spec, what):
    v = eq3(code, spec)
    ctx.verdict(v, rule, construct, where, ('(%s) ' % WHY[0] if WHY[0] and not v else '') + '%s is %s, required %s' % (what, T.show(T.canon(code)), T.show(T.canon(spec))), what)
    return v


def _args(a, kw):
    return list(a) + [kw[k] for k in sorted(kw)]


def fold(calls):
    """Mutually exclusive alternatives of one call site folded into one (guard, args)."""
    if not calls or len({len(c[1]) for c in calls}) != 1 or len({tuple(sorted(c[2])) for c in calls}) != 1:
        return None
    rc, a, kw, g, e = calls[-1]
    a, kw = list(a), dict(kw)
    for rc2, a2, kw2, g2, e2 in reversed(calls[:-1]):
        a = [T.t_phi(g2, x, y) for x, y in zip(a2, a)]
        kw = {k: T.t_phi(g2, kw2[k], kw[k]) for k in kw}
        g = T.t_bool('or', [g2, g])
    return rc, a, kw, g, e


def depths(o):
    """Loop nesting of every event."""
    out = {}

    def go(es, d):
        for e in es:
            out[id(e)] = d
            for k in e.kids:
                go(k, d + (e.kind == 'loop'))
    go(o.r.events, 0)
    return out


def dropped(code, spec, cs, ss):
    """Specified call sites the code lacks, when each of its own sites is exactly one of the specified ones."""
    dc, ds = depths(code), depths(spec)
    same = lambda x, y: len(x[1]) == len(y[1]) and sorted(x[2]) == sorted(y[2]) and eq3(x[3], y[3]) is True and all(eq3(p, q) is True for p, q in zip(_args(x[1], x[2]), _args(y[1], y[2])))
    left = list(ss)
    for x in cs:
        m = [y for y in left if dc[id(x[4])] == ds[id(y[4])] and same(x, y)]
        if not m:
            return []
        left.remove(m[0])
    return [y for y in left if not any(dc[id(x[4])] == ds[id(y[4])] and same(x, y) for x in cs)]


def align(cs, ss):
    """Code call sites reordered to the specification's order where the alternatives exclude each other."""
    if not all(exclusive(cs[i][3], cs[j][3]) for i in range(len(cs)) for j in range(i)):
        return cs
    left, out = list(cs), []
    for y in ss:
        m = [x for x in left if eq3(x[3], y[3]) is True]
        if not m:
            return cs
        out.append(m[0])
        left.remove(m[0])
    return out


def cmp_order(ctx, rule, tag, w, code, spec, names):
    """The calls `names` happen in the specified order."""
    f = lambda o: [e.name for e in flat(o.r.events) if e.kind == 'call' and e.name in names and e.guard is not FALSE]
    a, b = f(code), f(spec)
    ctx.verdict(True if a == b else (False if sorted(a) == sorted(b) else None), rule, tag + ' order', w, 'calls happen in the order %s, required %s' % (a, b), 'order of %s' % ', '.join(names))


def _bound(c, name):
    pos, kws = T._positional((mk('attr', mk('sym', 'receiver'), name), mk('tuple', *c[1]), mk('kwargs', *c[2].items())))
    return (c[0], pos, dict(kws)) + tuple(c[3:])


def part_of(n):
    """The attribute of self an object is a part of, if it is a part of one."""
    top = n
    while n.op in ('elem', 'index', 'attr') and not (n.op == 'attr' and n.args[0].op == 'self'):
        n = n.args[0]
    return n if n.op == 'attr' and n is not top else None


def cmp_calls(ctx, rule, construct, where, code, spec, name, recv=None, guards=True, argsel=None, missing=False):
    """Calls `name` on receiver recv happen with the same arguments under the same conditions.
    missing: verdict when the code makes none (False = violation, None = undecided)."""
    cs, ss = code.calls(name, recv), spec.calls(name, recv)
    if not ss:
        raise AnalysisError('specification of %s makes no %s call' % (construct, name))
    if not cs:
        if recv is not None and isinstance(recv, N) and recv.op == 'self' or (recv is None and name.startswith('_')):
            hook = ctx.prog.find(code.r.cls, name) if getattr(code.r, 'cls', None) is not None else None
            if hook is None or not abstract(hook.node):
                missing = None  # an internal helper need not exist, an extension point must be called
        if missing is False and isinstance(recv, N):
            known = {x[0] for x in spec.calls(name)}
            other = {x[0] for x in code.calls(name)} - known
            if other:
                # performed on another object: decisive only when both are understood
                vs = [eq3(x, recv) if x is not None else None for x in other]
                missing = False if all(v is False for v in vs) and not any(x is not None and T.contains(x, lambda q: q.op in ('phi', 'list', 'lv', 'mu')) for x in other) else None
                root = part_of(recv)
                if any(x is not None and x.op in ('elem', 'index', 'attr') and x.args[0] is not root and part_of(x) is root and root is not None for x in other):
                    missing = None  # performed on another part of the same object
        ctx.verdict(missing, rule, construct, where, '%s is never called' % name)
        return missing
    if len(cs) < len(ss) and argsel is None:
        lost = dropped(code, spec, cs, ss)
        if lost:
            y = lost[0]
            ctx.bad(rule, construct, where, '%s is not called under %s, required with %s' % (name, T.show(T.canon(y[3])), [T.show(T.canon(q)) for q in _args(y[1], y[2])]))
            return False
    if len(cs) != len(ss):
        f1, f2 = fold(cs), fold(ss)
        if f1 is None or f2 is None:
            ctx.unk(rule, construct, '%d call sites of %s, specified %d' % (len(cs), name, len(ss)))
            return None
        cs, ss = [f1], [f2]
        loose = True
    else:
        loose = False
        cmp_times(ctx, rule, construct, where, code, spec, cs, ss, name)
    res = []
    if len(cs) > 1:
        cs = align(cs, ss)
    for i, (x, y) in enumerate(zip(cs, ss)):
        if argsel is None and (sorted(x[2]) != sorted(y[2]) or len(x[1]) != len(y[1])):
            x, y = _bound(x, name), _bound(y, name)
        a, b = _args(x[1], x[2]), _args(y[1], y[2])
        tag = construct + ('' if len(cs) == 1 else '#%d' % i)
        w = '%s:%s' % (x[4].file, x[4].line)
        if argsel is not None:
            a = [v for k, v in enumerate(a) if k in argsel]
            b = [v for k, v in enumerate(b) if k in argsel]
        if argsel is None and sorted(x[2]) != sorted(y[2]) or len(a) != len(b):
            # an argument the specification passes is not passed (nothing else could carry it)
            lost = [y[2][k] for k in y[2] if k not in x[2]] + list(y[1][len(x[1]):])
            plain = not any(v.op == 'star' for v in x[1]) and '**' not in x[2] and not any(v.op == 'opaque' for v in a)
            more = [k for k in x[2] if k not in y[2]] + list(x[1][len(y[1]):])
            v = False if lost and plain and not more and not loose and argsel is None and any(T.strip(q).op != 'const' for q in lost) else None
            ctx.verdict(v, rule, tag + ' arguments', w, 'argument list of %s differs: not passed: %s' % (name, [T.show(T.canon(q)) for q in lost]))
            res.append(v)
            continue
        for j, (p, q) in enumerate(zip(a, b)):
            v = eq3(p, q)
            if v is False and loose:
                v = None
            ctx.verdict(v, rule, '%s arg%d' % (tag, j), w, ('(%s) ' % WHY[0] if WHY[0] and not v else '') + '%s receives %s, required %s' % (name, T.show(T.canon(p)), T.show(T.canon(q))), '%s argument' % name)
            res.append(v)
        if guards:
            v = eq3(x[3], y[3])
            if v is False and loose:
                v = None
            ctx.verdict(v, rule, '%s guard' % tag, w, ('(%s) ' % WHY[0] if WHY[0] and not v else '') + '%s happens under %s, required %s' % (name, T.show(T.canon(x[3])), T.show(T.canon(y[3]))), '%s condition' % name)
            res.append(v)
    return False if False in res else (None if None in res else True)


def loop_paths(events, path=(), out=None):
    """Enclosing loop events of every event."""
    out = {} if out is None else out
    for e in events:
        out[id(e)] = path
        for k in e.kids:
            loop_paths(k, path + (e,) if e.kind == 'loop' else path, out)
    return out


def times(o, evs):
    """How often the given events are reached at most: sum over them of the product of the iteration counts around each."""
    if not hasattr(o, 'paths'):
        o.paths = loop_paths(o.r.events)
    tot, looped = T.ZERO, False
    for e in evs:
        t = T.ONE
        for l in o.paths.get(id(e), ()):
            if l.iter is None:
                return None, True
            looped = True
            t = T.t_bin('mul', t, iter_count(o.E(l.iter)))
        tot = T.t_bin('add', tot, t)
    return T.canon(tot), looped


LENGTHS = ('len', 'shape', 'size', 'n_episodes', 'ndim', 'numel')


def same_count(a, b):
    if a is None or b is None:
        return None
    if T.equal(a, b):
        return True
    if T.contains(mk('tuple', a, b), lambda x: x.op in ('opaque', 'undef', 'lastval', 'exists', 'mu', 'mut', 'lv', 'loop', 'phi', 'lt', 'le', 'eq', 'is', 'in', 'truth')):
        return None
    if eq3(a, b) is not False:
        return None
    if T.canon(T.t_bin('sub', a, b)).op == 'const':
        return False
    leaves = lambda n: {x.id for x in T.walk(n) if x.op in ('attr', 'call', 'param', 'index', 'elem')}
    if leaves(a) == leaves(b):
        return False
    length = lambda n: T.contains(n, lambda x: x.op == 'attr' and x.args[1].lstrip('_') in LENGTHS or x.op == 'call' and T.call_parts(x)[1] in ('builtins.len', 'numpy.size', 'size', 'numel', '__len__') or x.op == 'f')
    return None if length(a) or length(b) else False


def cmp_times(ctx, rule, construct, w, code, spec, cs, ss, name):
    (a, la), (b, lb) = times(code, [x[4] for x in cs]), times(spec, [x[4] for x in ss])
    if not la and not lb or a is None and b is None:
        return
    v = same_count(a, b)
    sh = lambda n: 'an unknown number of' if n is None else T.show(n)
    ctx.verdict(v, rule, construct + ' count', w, '%s is reached %s times, required %s' % (name, sh(a), sh(b)), '%s count' % name)


def cmp_ends(ctx, rule, tag, w, code, spec):
    """Values carried through a loop: the same recurrence runs for the same number of iterations."""
    def bound(o, lid):
        l = o.I.LOOPS[lid]
        return iter_count(o.E(l['iter'])) if l['iter'] is not None else mk('while', o.E(l['cond']))

    cl, sp = {T.canon(k): v for k, v in code.E.ends.items()}, {T.canon(k): v for k, v in spec.E.ends.items()}
    seen = set()
    for m in cl:
        if m not in sp:
            continue
        a, b = {bound(code, x) for x in cl[m]}, {bound(spec, x) for x in sp[m]}
        if len(a) != 1 or len(b) != 1:
            continue
        (a,), (b,) = a, b
        if (a, b) in seen:
            continue
        seen.add((a, b))
        if a.op == 'while' and b.op == 'while':
            p, q = a.args[0], b.args[0]
            v = eq3(p, q)
            if v is False and (p.op == 'const' or q.op == 'const'):
                v = None
        elif a.op == 'while' or b.op == 'while':
            v = None
        else:
            v = same_count(a, b)
        ctx.verdict(v, rule, '%s loop bound' % tag, w, 'a value is accumulated over %s iterations, required %s' % (T.show(a), T.show(b)), 'loop bound')


def cmp_yields(ctx, rule, tag, w, code, spec):
    f = lambda o: [(o.E(e.value), o.E(e.guard)) for e in flat(o.r.events) if e.kind == 'yield']
    a, b = f(code), f(spec)
    if not a and not b:
        return
    if len(a) != len(b):
        ctx.unk(rule, tag + ' yields', '%d yields, specified %d' % (len(a), len(b)))
        return
    for i, (x, y) in enumerate(zip(a, b)):
        cmp_values(ctx, rule, '%s yielded value %d' % (tag, i), w, x[0], y[0], 'the yielded value')
        cmp_values(ctx, rule, '%s yield condition %d' % (tag, i), w, x[1], y[1], 'the yield condition')


def writes_attr(code, name):
    """Some analysed function may write attribute `name`: assignment, item assignment, out=, or the attribute handed to a call."""
    prog = code.I.prog
    for q in code.I.n_funcs:
        f = prog.funcs_by_qual().get(q) if hasattr(prog, 'funcs_by_qual') else None
        if f is None:
            return True
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and x.attr == name and not isinstance(x.ctx, ast.Load):
                return True
            if isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load) and any(isinstance(y, ast.Attribute) and y.attr == name for y in ast.walk(x.value)):
                return True
            if isinstance(x, ast.Call):
                for y in list(x.args) + [k.value for k in x.keywords]:
                    if any(isinstance(z, ast.Attribute) and z.attr == name for z in ast.walk(y)):
                        return True
                if isinstance(x.func, ast.Attribute) and any(isinstance(z, ast.Attribute) and z.attr == name for z in ast.walk(x.func.value)):
                    return True
                if isinstance(x.func, ast.Name) and x.func.id in ('setattr', 'exec', 'vars'):
                    return True
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Attribute) and x.value.attr == name:
                return True
    return False


def cmp_attr(ctx, rule, construct, where, code, spec, name, cls):
    s = mk('self', cls.qual)
    a, b = code.heap.get((s, name)), spec.heap.get((s, name))
    if b is None:
        raise AnalysisError('specification of %s does not define %s' % (construct, name))
    if a is None:
        # not written: value unchanged
        a = mk('attr', s, name)
        if not code_mentions(code, name):
            ctx.unk(rule, '%s.%s' % (construct, name), 'attribute not written')
            return None
        if not writes_attr(code, name) and not T.equal(a, b) and not cases_equal(a, b):
            ctx.bad(rule, '%s.%s' % (construct, name), where, 'attribute %s is left unchanged, required %s' % (name, T.show(T.canon(b))))
            return False
    return cmp_values(ctx, rule, '%s.%s' % (construct, name), where, a, b, 'attribute %s' % name)


def code_mentions(code, name):
    for c in code.I.prog.mro(code.r.cls):
        if isinstance(c, Class):
            for x in ast.walk(c.node):
                if isinstance(x, ast.Attribute) and x.attr == name:
                    return True
    return False


def cmp_over(ctx, rule, construct, where, code, spec):
    """In-place writes to persistent objects."""
    out = []
    for k, b in spec.over.items():
        a = code.over.get(k)
        if a is None:
            # perhaps the same object is reached by another path
            ctx.unk(rule, '%s %s' % (construct, T.show(k)), 'in-place target not found')
            continue
        out.append(cmp_values(ctx, rule, '%s %s' % (construct, T.show(k)), where, a, b, 'content of %s' % T.show(k)))
    return out


def cmp_defaults(ctx, rule, tag, w, code, spec):
    """Literal default values of parameters, where the specification gives them."""
    def defaults(fn):
        a = fn.node.args
        names = [x.arg for x in a.args]
        if names[:1] == ['self']:
            names = names[1:]
        d = dict(zip(names[len(names) - len(a.defaults):], a.defaults)) if a.defaults else {}
        return names, d
    n1, d1 = defaults(code.r.func)
    n2, d2 = defaults(spec.r.func)
    for i, nm in enumerate(n2):
        if nm in d2 and i < len(n1) and n1[i] in d1:
            try:
                x, y = ast.literal_eval(d1[n1[i]]), ast.literal_eval(d2[nm])
            except (ValueError, TypeError, SyntaxError):
                continue
            ctx.verdict(x == y, rule, '%s default of %s' % (tag, nm), w, 'default of %s is %r, required %r' % (n1[i], x, y), 'default value')


def refine(ctx, cls, method, specmod, specname, rule, calls=(), policy=None, extra=None, attrs=True, over=True, ret=False, tag=None, only=None, guards=True,
           missing=False, heap=True, types=None, argsel=None, closed=False, order=None, raw=('shape',), module=''):
    """Compare every effect the specification program has with the code's.
    calls: names of collaborator calls to compare (arguments and conditions)."""
    c = (module and ctx.prog.cls('%s.%s' % (module, cls)) or ctx.prog.need_cls(cls)) if isinstance(cls, str) else cls
    tag = tag or (c.name if c is not None else method)
    code, spec = run_both(ctx, c, method, specmod, specname, policy=policy, heap=heap, extra=extra, types=types, module=module)
    if code is None:
        ctx.unk(rule, tag, '%s not found' % method)
        return None
    if not (code.fuzzy or spec.fuzzy or code.raises is spec.raises):
        cmp_values(ctx, rule, '%s rejected inputs' % tag, code.r.func.loc, code.raises, spec.raises, 'the condition under which the call is rejected')
    with normal(code, spec, raw):
        _refine(ctx, c, rule, tag, code, spec, calls, extra, attrs, over, ret, only, guards, missing, argsel, closed, heap)
        if order:
            cmp_order(ctx, rule, tag, code.r.func.loc, code, spec, order)
    return code, spec


def _refine(ctx, c, rule, tag, code, spec, calls, extra, attrs, over, ret, only, guards, missing, argsel, closed, heap):
    w = code.r.func.loc
    s = mk('self', c.qual) if c is not None else None
    seed = {(s, k): code.E(v) for k, v in ctor_heap(ctx, c).items()} if c is not None and heap else {}
    # a field the specification writes is not a constant of the object
    seed = {k for k, v in seed.items() if k not in spec.heap or T.equal(spec.heap[k], v)}
    cmp_defaults(ctx, rule, tag, w, code, spec)
    if over:
        for k in spec.over:
            if only is not None and T.show(k) not in only:
                continue
            a = code.over.get(k)
            if a is None:
                if k.op == 'attr' and (k.args[0], k.args[1]) in code.heap:
                    a = code.heap[(k.args[0], k.args[1])]
                elif k.op == 'attr' and k.args[0] is s and code_mentions(code, k.args[1]) and not writes_attr(code, k.args[1]) and not T.equal(k, spec.over[k]) and not cases_equal(k, spec.over[k]):
                    ctx.bad(rule, '%s %s' % (tag, T.show(k)), w, '%s is left unchanged, required %s' % (T.show(k), T.show(T.canon(spec.over[k]))))
                    continue
                else:
                    ctx.unk(rule, '%s %s' % (tag, T.show(k)), 'not written in place')
                    continue
            cmp_values(ctx, rule, '%s %s' % (tag, T.show(k)), w, a, spec.over[k], T.show(k))
    if attrs:
        for (o, k), v in spec.heap.items():
            if only is not None and k not in only:
                continue
            if o is s and (o, k) not in seed and not (extra and (o, k) in extra):
                cmp_attr(ctx, rule, tag, w, code, spec, k, c)
            elif o.op in ('attr', 'index', 'param', 'elem'):
                a = code.heap.get((o, k))
                if a is None:
                    ctx.unk(rule, '%s %s.%s' % (tag, T.show(o), k), 'not assigned')
                else:
                    cmp_values(ctx, rule, '%s %s.%s' % (tag, T.show(o), k), w, a, v, '%s.%s' % (T.show(o), k))
    for call in calls:
        sc = spec.calls(call)
        for rc in {x[0] for x in sc}:
            cmp_calls(ctx, rule, '%s %s(%s)' % (tag, call, T.show(rc) if rc is not None else ''), w, code, spec, call, recv=rc, guards=guards, missing=missing, argsel=argsel)
    if ret:
        cmp_yields(ctx, rule, tag, w, code, spec)
        cmp_values(ctx, rule, '%s returned value' % tag, w, code.ret, spec.ret, 'the returned value')
    cmp_ends(ctx, rule, tag, w, code, spec)
    if closed:
        frame(ctx, rule, tag, w, code, spec, c, seed, extra)


def dataset_field(k):
    """One of the arrays a given dataset parses into (its own storage unless the backends differ)."""
    if k.op != 'index' or not T.is_num(k.args[1]) or k.args[0].op != 'call':
        return False
    kind, nm, a, kw = T.call_parts(k.args[0])
    return kind == 'meth' and nm in ('parse', 'parse_policy_state') and a and a[0].op == 'param'


def frame(ctx, rule, tag, w, code, spec, c, seed, extra):
    """Nothing else the object already holds, and no argument, changes (attributes introduced by an edit are not judged)."""
    s = mk('self', c.qual) if c is not None else None
    known = vocabulary()
    bad = None
    for (o, k), v in code.heap.items():
        if (o, k) in spec.heap or k not in known or (extra and (o, k) in extra) or (o is s and (o, k) in seed):
            continue
        if o is s and not any(isinstance(x, ast.Attribute) and x.attr == k and isinstance(x.ctx, ast.Load) for m in ctx.prog.mro(c) if isinstance(m, Class) for f in m.methods.values()
                              if f is not code.r.func for x in ast.walk(f.node)):
            continue
        if (o is s or o.op == 'param') and eq3(v, mk('attr', o, k)) is False and not T.contains(mk('attr', o, k), lambda x: x.op == 'opaque'):
            ctx.bad(rule, '%s frame %s' % (tag, k), w, '%s.%s is changed to %s, required unchanged' % (T.show(o), k, T.show(T.canon(v))))
            bad = True
    for k, v in code.over.items():
        if k in spec.over or not (k.op == 'param' or dataset_field(k)):
            continue
        if eq3(v, k) is False or k.op == 'index' and eq3(v, k) is None:
            ctx.bad(rule, '%s frame %s' % (tag, T.show(k)), w, 'the argument %s is modified in place to %s' % (T.show(k), T.show(T.canon(v))))
            bad = True
    if not bad:
        ctx.ok(rule, '%s frame' % tag, 'no other known attribute or argument changes')


def table(ctx, rule, specmod, rows):
    """rows: 'Class.method' or 'function', or (name, options); the specification function is Class_method unless options give spec=."""
    dev = os.environ.get('SA_ROWS')     # development only (tools/mutate.py): judge the rows of one class
    for row in rows:
        name, opt = row if isinstance(row, tuple) else (row, {})
        if dev and not name.startswith(dev):
            continue
        opt = dict(opt)
        cls, _, meth = name.rpartition('.')
        spec = opt.pop('spec', name.replace('.', '_'))
        opt.setdefault('ret', True)
        opt.setdefault('closed', True)
        opt.setdefault('tag', name)
        ctx.part(name, lambda ctx, cls=cls, meth=meth, spec=spec, opt=opt: refine(ctx, cls or None, meth, specmod, spec, rule, **opt))


CONTAINER = {'insert', 'pop', 'remove', '__init__', 'sort', 'fill_', 'reverse', 'popleft', 'appendleft', 'setdefault'}


def effects_of(node):
    """Names of the calls a specification makes as statements: effects on collaborators."""
    out = []
    for x in ast.walk(node):
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute):
            f = x.value.func
            if f.attr in CONTAINER or f.attr.endswith('_') or (isinstance(f.value, ast.Name) and f.value.id in ('np', 'torch', 'super') and f.attr != 'save'):
                continue
            if isinstance(f.value, ast.Name) and f.value.id == 'self' or isinstance(f.value, ast.Call):
                continue
            if f.attr not in out:
                out.append(f.attr)
    return tuple(out)


def auto(ctx, rule, specmod, opts=None, skip=(), only=None, raw=('shape',), module=''):
    """Every function of a specification module (Class_method or function) against the code of that name."""
    opts = opts or {}
    tree = ast.parse(open(os.path.join(HERE, 'specs', specmod + '.py')).read())
    classes = sorted({c.name for c in ctx.prog.classes.values()}, key=len, reverse=True)
    rows = []
    for n in tree.body:
        if not isinstance(n, ast.FunctionDef) or n.name in skip or (only and not only(n.name)):
            continue
        if len(n.body) == 1 and isinstance(n.body[0], ast.Raise):
            continue
        meth = bool(n.args.args) and n.args.args[0].arg == 'self' or any(n.name.startswith(c + '_') for c in classes)
        cls = next((c for c in classes if n.name.startswith(c + '_')), None)
        if cls is None and meth:
            # the class is gone or renamed
            ctx.unk(rule, n.name, 'class not found')
            continue
        name = cls + '.' + n.name[len(cls) + 1:] if cls else n.name
        o = dict(spec=n.name, raw=raw, module=module)
        e = effects_of(n)
        if e:
            o['calls'] = e
        if n.name.endswith('___init__'):
            o.update(heap=False, ret=False)
        o.update(opts.get(name, {}))
        rows.append((name, o))
    table(ctx, rule, specmod, rows)
    return rows
