"""Hash-consed value-graph nodes and their algebraic normal form.

A node denotes the value computed by an expression; structural sharing gives
global value numbering.  `poly` puts arithmetic into a sum-of-monomials normal
form in which boolean selections (if/else joins, masks, np.where, masked
assignments) are 0/1 indicator factors, so `x if not a else 0`, `x * (1 - a)`
and `x[a] = 0` are the same value."""
from fractions import Fraction

_tab = {}
_cnt = [0]


class N:
    __slots__ = ('op', 'args', 'id', '_canon')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *args):
    k = (op, args)
    n = _tab.get(k)
    if n is None:
        n = N()
        n.op, n.args = op, args
        n.id = _cnt[0]
        n._canon = None
        _cnt[0] += 1
        _tab[k] = n
    return n


def serial():
    _cnt[0] += 1
    return _cnt[0]


def const(v):
    try:
        hash(v)
    except TypeError:
        v = repr(v)
    return mk('const', type(v).__name__, v)


NONE, TRUE, FALSE = const(None), const(True), const(False)
ZERO, ONE = const(0), const(1)


def is_const(n, v=...):
    if n.op != 'const':
        return False
    return v is ... or (n.args[1] == v and type(n.args[1]) == type(v))


def is_num(n):
    return n.op == 'const' and n.args[0] in ('int', 'float', 'bool')


def cval(n):
    return n.args[1]


def sym(name):
    return mk('sym', name)


def show(n, d=0):
    if not isinstance(n, N):
        return repr(n)
    if d > 9:
        return '...'
    a = n.args
    s = lambda x: show(x, d + 1)
    if n.op == 'const':
        return repr(a[1])
    if n.op in ('sym', 'param'):
        return a[0]
    if n.op == 'attr':
        return '%s.%s' % (s(a[0]), a[1])
    if n.op == 'self':
        return 'self'
    if n.op == 'ext':
        return a[0]
    if n.op == 'meth':
        return '%s.%s' % (s(a[0]), a[1])
    if n.op == 'index':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if n.op in ('tuple', 'list'):
        return '(' + ', '.join(map(s, a)) + ')'
    if n.op == 'call':
        return '%s(%s)' % (s(a[0]), ', '.join([s(x) for x in a[1].args] + ['%s=%s' % (k, s(v)) for k, v in a[2].args]))
    if n.op == 'phi':
        return '(%s ? %s : %s)' % tuple(map(s, a))
    if n.op == 'poly':
        return show_poly(dict(a[0]))
    if n.op == 'loopid':
        return 'L%d' % n.id
    if n.op == 'obj':
        return 'obj%d' % n.id
    if n.op == 'lv':
        return 'lv:%s' % (s(a[2]) if isinstance(a[2], N) else a[2],)
    if n.op == 'map':
        return '[%s for %s in %s]' % (s(a[1]), s(a[0]), s(a[3]))
    if n.op == 'new':
        return '<%s%s>' % (a[0].split('.')[-1], ''.join(' %s=%s' % (p[0], s(p[1])) for p in a[1:] if isinstance(p, tuple) and len(p) == 2 and isinstance(p[1], N)))
    return '%s(%s)' % (n.op, ', '.join(s(x) if isinstance(x, N) else str(x)[:40] for x in a))


def children(n):
    for x in n.args:
        if isinstance(x, N):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, N):
                    yield y
        elif isinstance(x, frozenset):
            for y in x:
                if isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, N):
                            yield z
                        elif isinstance(z, frozenset):
                            for w in z:
                                yield w[0]


def walk(n, seen=None):
    """All sub-nodes (each once)."""
    seen = set() if seen is None else seen
    st = [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(children(x))


def contains(n, pred):
    return any(pred(x) for x in walk(n))


def depends(n, targets):
    t = targets if isinstance(targets, (set, frozenset, list, tuple)) else {targets}
    t = {x.id for x in t}
    return any(x.id in t for x in walk(n))


# ---------------------------------------------------------------- builders
CMP_SWAP = {'gt': 'lt', 'ge': 'le'}


def t_not(a):
    if a.op == 'const':
        return const(not a.args[1])
    if a.op == 'not':
        return a.args[0]
    if a.op == 'lt':
        return mk('le', a.args[1], a.args[0])
    if a.op == 'le':
        return mk('lt', a.args[1], a.args[0])
    return mk('not', a)


def t_phi(c, a, b):
    if a is b:
        return a
    if c.op == 'const':
        return a if c.args[1] else b
    if c.op == 'not':
        return t_phi(c.args[0], b, a)
    if a.op == 'phi' and a.args[0] is c:
        return t_phi(c, a.args[1], b)
    if b.op == 'phi' and b.args[0] is c:
        return t_phi(c, a, b.args[2])
    if c.op == 'call' and a.op == 'call' and c.args[0].op == 'ext' and c.args[0].args[0] == 'builtins.hasattr' and a.args[0].op == 'ext' and a.args[0].args[0] == 'builtins.getattr' \
            and c.args[1].args == a.args[1].args and len(a.args[1].args) == 2:
        return mk('call', a.args[0], mk('tuple', *(a.args[1].args + (b,))), a.args[2])
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return t_not(c)
    if a.op == 'upd' and b.op == 'upd' and a.args[0] is b.args[0] and a.args[1] is b.args[1] and len(a.args) == 3 and len(b.args) == 3:
        return mk('upd', a.args[0], a.args[1], t_phi(c, a.args[2], b.args[2]))
    if c.op == 'le':      # canonical orientation: strict comparison is the condition
        return t_phi(mk('lt', c.args[1], c.args[0]), b, a)
    return mk('phi', c, a, b)


def t_upd(b, k, v):
    """Item assignment: a second write to the same key replaces the first, writes to different constant keys commute."""
    if b.op == 'upd' and len(b.args) == 3:
        if b.args[1] is k:
            return mk('upd', b.args[0], k, v)
        x = b.args[1]
        if x.op == 'const' and k.op == 'const' and x.args[0] == k.args[0] and (x.args[0] == 'str' or x.args[0] == 'int' and x.args[1] >= 0 and k.args[1] >= 0) and k.args[1] < x.args[1]:
            return mk('upd', t_upd(b.args[0], k, v), x, b.args[2])
    return mk('upd', b, k, v)


def t_slice(lo, hi, step):
    """x[0:n], x[:n] and x[:n:1] are the same selection."""
    if is_const(step, 1):
        step = NONE
    if step is NONE and lo.op == 'const' and lo.args[1] == 0 and lo.args[0] == 'int':
        lo = NONE
    if step is NONE and hi.op == 'f' and hi.args[0] == 'minimum':
        # a selection stops at the end of what it selects from anyway
        z = [x for x in hi.args[1:] if not is_len(x)]
        if len(z) == 1:
            hi = z[0]
    return mk('slice', lo, hi, step)


def is_len(n):
    if n.op == 'call':
        k, nm, a, kw = call_parts(n)
        return k == 'ext' and nm == 'builtins.len'
    return n.op == 'attr' and n.args[1] == 'size' or n.op == 'index' and n.args[0].op == 'attr' and n.args[0].args[1] == 'shape' and is_const(n.args[1], 0)


def steps_of(lo, hi, step):
    """Number of elements of range(lo, hi, step)."""
    q = t_bin('div', hi if is_const(lo, 0) else t_bin('sub', hi, lo), step)
    return mk('call', mk('ext', 'numpy.ceil'), mk('tuple', q), mk('kwargs'))


def t_index(b, k):
    """x[a:][i] is x[a+i], x[:n][i] is x[i] (constant, non-negative bounds)."""
    if b.op == 'index' and b.args[1].op == 'slice' and k.op == 'const' and k.args[0] == 'int' and k.args[1] >= 0:
        lo, hi, step = b.args[1].args
        nat = lambda x: x.op == 'const' and x.args[0] == 'int' and x.args[1] >= 0
        if step is NONE and (lo is NONE or nat(lo)) and (hi is NONE or nat(hi)):
            i = k.args[1] + (0 if lo is NONE else lo.args[1])
            if hi is NONE or i < hi.args[1]:
                return mk('index', b.args[0], const(i))
    if b.op in ('tuple', 'list') and k.op == 'const' and k.args[0] == 'int' and not any(x.op == 'star' for x in b.args) and -len(b.args) <= k.args[1] < len(b.args):
        return b.args[k.args[1]]
    return mk('index', b, k)


def t_bool(op, xs):
    out = []
    for x in xs:
        if x.op == op:
            out.extend(x.args)
        elif is_const(x):
            if op == 'and':
                if not x.args[1]:
                    return x
            else:
                if x.args[1]:
                    return x
        else:
            out.append(x)
    seen, uniq = set(), []
    for x in out:
        if x.id not in seen:
            seen.add(x.id)
            uniq.append(x)
    if not uniq:
        return TRUE if op == 'and' else FALSE
    if len(uniq) == 1:
        return uniq[0]
    return mk(op, *uniq)


def t_cmp(op, a, b):
    if op in CMP_SWAP:
        return t_cmp(CMP_SWAP[op], b, a)
    if op == 'ne':
        return t_not(t_cmp('eq', a, b))
    if op == 'isnot':
        return t_not(t_cmp('is', a, b))
    if op == 'notin':
        return t_not(t_cmp('in', a, b))
    if a.op == 'const' and b.op == 'const':
        try:
            x, y = a.args[1], b.args[1]
            r = {'lt': lambda: x < y, 'le': lambda: x <= y, 'eq': lambda: x == y,
                 'is': lambda: x is y or (x == y and type(x) == type(y)), 'in': lambda: x in y}[op]()
            return const(bool(r))
        except Exception:
            pass
    if op == 'in' and b.op in ('tuple', 'list', 'set') and b.args and not any(x.op == 'star' for x in b.args):
        return t_bool('or', [t_cmp('eq', a, x) for x in b.args])
    if op == 'is' and (b is NONE or a is NONE):
        x = a if b is NONE else b
        if x.op == 'phi':
            return t_phi(x.args[0], t_cmp('is', x.args[1], NONE), t_cmp('is', x.args[2], NONE))
        if x.op in ('fstr', 'slice', 'set', 'lam') or is_len(x):
            return FALSE
        if x.op in ('new', 'list', 'tuple', 'dict', 'closure', 'func', 'cls', 'self', 'bound', 'alloc', 'add', 'mul', 'sub',
                    'lt', 'le', 'eq', 'map', 'poly'):
            return FALSE
        return mk('is', x, NONE)
    if op == 'eq' and b.id < a.id:
        a, b = b, a
    if op == 'eq' and a is b and a.op in ('param', 'attr', 'lv', 'iter', 'elem'):
        return TRUE
    return mk(op, a, b)


def exact(op, x, y, r):
    """Folding decimals did not round (a rounded constant would depend on the order of the operations)."""
    if op not in ('add', 'sub', 'mul', 'div', 'pow') or not all(v == v and abs(v) != float('inf') for v in (x, y, r)):
        return True
    x, y, r = [Fraction(repr(v)) if isinstance(v, float) else Fraction(v) for v in (x, y, r)]
    if op == 'pow' and y.denominator != 1:
        return True
    return {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'div': lambda: x / y, 'pow': lambda: x ** int(y)}[op]() == r


def t_bin(op, a, b):
    if is_num(a) and is_num(b):
        x, y = a.args[1], b.args[1]
        try:
            r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'div': lambda: x / y,
                 'floordiv': lambda: x // y, 'mod': lambda: x % y, 'pow': lambda: x ** y}.get(op)
            if r is not None:
                r = r()
                if isinstance(r, (int, float)) and (isinstance(x, int) and isinstance(y, int) or exact(op, x, y, r)):
                    return const(r)
        except Exception:
            pass
    if op == 'add' and a.op in ('list', 'tuple') and b.op == a.op:
        return mk(a.op, *(a.args + b.args))
    return mk(op, a, b)


# ---------------------------------------------------------------- normal form
TRANSPARENT_M = set('''reshape squeeze unsqueeze ravel flatten view view_as astype copy clone detach numpy cpu cuda to float
int double long item tolist type contiguous expand_as bool requires_grad_ swapaxes half'''.split())
TRANSPARENT_F = set('''numpy.array numpy.asarray numpy.atleast_1d numpy.atleast_2d numpy.squeeze numpy.expand_dims numpy.reshape
numpy.ravel numpy.copy numpy.ascontiguousarray numpy.float32 numpy.float64 torch.as_tensor torch.tensor torch.from_numpy torch.squeeze torch.unsqueeze
torch.reshape torch.flatten torch.clone torch.atleast_1d torch.atleast_2d torch.atleast_3d torch.asarray torch.detach
copy.deepcopy copy.copy builtins.float builtins.bool builtins.tuple builtins.list torch.Tensor torch.FloatTensor builtins.int'''.split())

FUNC_ALIAS = {'amax': 'max', 'amin': 'min', 'concatenate': 'cat', 'hstack': 'hstack', 'clamp': 'clip', 'absolute': 'abs',
              'logical_not': 'not', 'logical_and': 'band', 'logical_or': 'bor', 'multiply': 'mul', 'add': 'add',
              'subtract': 'sub', 'divide': 'div', 'true_divide': 'div', 'negative': 'neg', 'power': 'pow', 'square': 'square', 'matmul': 'matmul',
              'mm': 'matmul', 'bmm': 'matmul', 'dot': 'matmul', 'max_': 'max', 'clip_': 'clip', 'zero_': 'zeros', 'fabs': 'abs', 'sub': 'sub',
              'mul': 'mul', 'div': 'div', 'neg': 'neg', 'pow': 'pow', 'float_power': 'pow', 'maximum': 'maximum', 'minimum': 'minimum',
              'fmax': 'maximum', 'fmin': 'minimum'}

# functions that compute elementwise/reductions for which `f(x)` and `x.f()` agree
UNIFY = set('''max min sum mean any all argmax argmin prod std var cumsum exp log sqrt abs clip round cat stack maximum minimum
where zeros ones zeros_like ones_like empty empty_like full arange eye linspace matmul transpose tanh sign floor ceil sin cos
not band bor mul add sub div neg pow square logsumexp softmax repeat tile gather argsort sort norm nonzero isnan isfinite
unique diag outer einsum log1p expm1 triu tril flip roll'''.split())

BOOL_SYMS = set()     # ids of nodes declared boolean by a rule


def call_parts(n):
    """(kind, name, args, kwargs): kind 'ext' | 'meth' | other; for 'meth' args[0] is the receiver."""
    fn, args, kw = n.args[0], n.args[1].args, dict(n.args[2].args)
    if fn.op == 'ext':
        return 'ext', fn.args[0], list(args), kw
    if fn.op == 'meth':
        return 'meth', fn.args[1], [fn.args[0]] + list(args), kw
    return 'other', fn, list(args), kw


def fname(n):
    """Canonical function name of a call node on arrays/scalars ('max','where',...) or None."""
    k, nm, a, kw = call_parts(n)
    if k == 'other':
        return None
    if k == 'ext':
        root = nm.split('.')[0]
        if root not in ('numpy', 'torch', 'math', 'builtins', 'scipy'):
            return None
        base = nm.split('.')[-1]
        if '.random.' in nm:
            return None
    else:
        base = nm
    base = FUNC_ALIAS.get(base, base)
    return base if base in UNIFY else None


def strip(n):
    """Remove shape/dtype/copy/detach wrappers."""
    while True:
        if n.op == 'call':
            k, nm, a, kw = call_parts(n)
            if k == 'meth' and nm in TRANSPARENT_M:
                n = a[0]
                continue
            if k == 'ext' and nm in TRANSPARENT_F and a:
                n = a[0]
                continue
        if n.op == 'index' and _trivial_index(n.args[1]):
            n = n.args[0]
            continue
        if n.op == 'attr' and n.args[1] == 'data':
            n = n.args[0]
            continue
        return n


def _trivial_index(k):
    if k is NONE or (k.op == 'const' and k.args[1] is Ellipsis) or (k.op == 'ext' and k.args[0] == 'numpy.newaxis'):
        return True
    if k.op == 'slice':
        return all(x is NONE for x in k.args)
    if k.op == 'tuple':
        return bool(k.args) and all(_trivial_index(x) for x in k.args)
    return False


FLAG_NAMES = {'absorbing', 'last', 'absorbings'}


def is_flag(n):
    """End-of-episode flags by role: fields 4 and 5 of a parsed sample batch, or parameters of that name."""
    if n.op == 'param':
        return n.args[0] in FLAG_NAMES
    if n.op == 'index' and n.args[1].op == 'const' and n.args[1].args[1] in (4, 5) and n.args[1].args[0] == 'int':
        b = n.args[0]
        if b.op == 'call':
            k, nm, a, kw = call_parts(b)
            return k == 'meth' and nm in ('parse', 'item', 'get')
        return b.op == 'elem' and b.args[0].op == 'param' and b.args[0].args[0] == 'dataset' or b.op == 'param' and b.args[0] == 'dataset'
    return False


def is_bool(n):
    n = strip(n)
    if n.id in BOOL_SYMS or is_flag(n):
        return True
    if n.op in ('lt', 'le', 'eq', 'is', 'in', 'not', 'truth'):
        return True
    if n.op == 'const':
        return n.args[0] == 'bool'
    if n.op == 'f':
        return n.args[0] in ('any', 'all', 'isnan', 'isfinite', 'not')
    if n.op in ('and', 'or'):
        return all(is_bool(x) for x in n.args)
    if n.op in ('band', 'bor', 'bxor'):
        return is_bool(n.args[0]) and is_bool(n.args[1])
    if n.op == 'inv':
        return is_bool(n.args[0])
    if n.op in ('index', 'elem'):
        return is_bool(n.args[0])
    if n.op == 'phi':
        return is_bool(n.args[1]) and is_bool(n.args[2])
    if n.op == 'call':
        f = fname(n)
        if f in ('any', 'all', 'isnan', 'isfinite', 'not'):
            return True
        k, nm, a, kw = call_parts(n)
        if k == 'ext' and nm in ('builtins.isinstance', 'builtins.hasattr', 'numpy.array_equal', 'numpy.isclose', 'numpy.allclose'):
            return True
    return False


def _frac(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if v != v or v in (float('inf'), float('-inf')):
        return None
    return Fraction(repr(v))


def p_const(c):
    return {frozenset(): Fraction(c)} if c else {}


def p_atom(a):
    return {frozenset([(a, 1)]): Fraction(1)}


def p_add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    out = []
    anyd = [a for a in d if a.op == 'f' and a.args[0] == 'any']
    for a, e in d.items():
        if e == 0:
            continue
        if e > 1 and is_bool(a):
            e = 1
        out.append((a, e))
    if anyd:
        names = {a.id for a, _ in out}
        drop = {x.id for x in anyd if any(y.id in names for y in [x.args[1]])}
        out = [(a, e) for a, e in out if a.id not in drop]
    return frozenset(out)


FALSY = (0, 0.0, '', None, False)
_excl = {}


def excludes(x, y):
    """Two boolean atoms that never hold together (whatever the values they speak about)."""
    k = (x.id, y.id)
    r = _excl.get(k)
    if r is None:
        r = _excl[k] = _excludes(x, y) or _excludes(y, x)
    return r


def _excludes(x, y):
    if x.op == 'eq' and y.op == 'eq':
        cx, cy = [[q for q in z.args if q.op == 'const'] for z in (x, y)]
        if len(cx) == 1 and len(cy) == 1 and cx[0] is not cy[0]:
            rx, ry = [[q for q in z.args if q.op != 'const'][0] for z in (x, y)]
            return rx is ry and cx[0].args[1] != cy[0].args[1]
        return False
    if x.op == 'lt' and y.op in ('lt', 'eq'):
        if x.args[0] is y.args[1] and x.args[1] is y.args[0] or y.op == 'eq' and x.args == y.args:
            return True
    if x.op == 'lt' and y.op == 'lt' and x.args[0].op == 'const' and y.args[1].op == 'const' and x.args[1] is y.args[0]:
        try:
            return x.args[0].args[1] >= y.args[1].args[1]      # c < v and v < d with d <= c
        except TypeError:
            return False
    if x.op == 'lt' and y.op == 'eq':
        c = [q for q in y.args if q.op == 'const']
        v = [q for q in y.args if q.op != 'const']
        try:
            if len(c) == 1 and x.args[0].op == 'const' and x.args[1] is v[0]:
                return not x.args[0].args[1] < c[0].args[1]
            if len(c) == 1 and x.args[1].op == 'const' and x.args[0] is v[0]:
                return not c[0].args[1] < x.args[1].args[1]
        except TypeError:
            return False
    if x.op == 'is' and x.args[1] is NONE:
        v = x.args[0]
        if y.op == 'truth':
            return y.args[0] is v
        if y.op == 'call':
            k, nm, a, kw = call_parts(y)
            return k == 'ext' and nm == 'builtins.isinstance' and a[0] is v and 'NoneType' not in show(a[1])
        if y.op == 'eq':
            return v in y.args and any(q.op == 'const' and q is not NONE for q in y.args)
    if x.op == 'in' and y.op == 'eq':
        c = [q for q in y.args if q.op == 'const']
        if len(c) == 1 and x.args[0] in y.args and x.args[1].op == 'const':
            try:
                return c[0].args[1] not in x.args[1].args[1]
            except TypeError:
                return False
    if x.op == 'truth' and y.op == 'eq':
        return x.args[0] in y.args and any(q.op == 'const' and q.args[1] in FALSY for q in y.args)
    return False


def entails(x, y):
    """Whenever x holds, y holds."""
    if x.op == 'eq' and y.op == 'in':
        c = [q for q in x.args if q.op == 'const']
        if len(c) == 1 and y.args[0] in x.args and y.args[1].op == 'const':
            try:
                return c[0].args[1] in y.args[1].args[1]
            except TypeError:
                return False
    if x.op == 'eq' and y.op == 'truth':
        return y.args[0] in x.args and any(q.op == 'const' and q.args[1] not in FALSY for q in x.args)
    if x.op == 'lt' and y.op == 'lt':
        try:
            if x.args[1] is y.args[1] and x.args[0].op == y.args[0].op == 'const':
                return x.args[0].args[1] >= y.args[0].args[1]
            if x.args[0] is y.args[0] and x.args[1].op == y.args[1].op == 'const':
                return x.args[1].args[1] <= y.args[1].args[1]
        except TypeError:
            return False
    if x.op == 'eq' and y.op == 'lt':
        c = [q for q in x.args if q.op == 'const']
        v = [q for q in x.args if q.op != 'const']
        try:
            if len(c) == 1 and y.args[0].op == 'const' and y.args[1] is v[0]:
                return y.args[0].args[1] < c[0].args[1]
            if len(c) == 1 and y.args[1].op == 'const' and y.args[0] is v[0]:
                return c[0].args[1] < y.args[1].args[1]
        except TypeError:
            return False
    return False


RELATING = {'eq', 'lt', 'is', 'in', 'truth'}


def _clash(m):
    b = [a for a, e in m if a.op in RELATING or a.op == 'call' and a.args[0].op == 'ext' and a.args[0].args[0] == 'builtins.isinstance']
    if len(b) < 2:
        return False
    return any(excludes(b[i], b[j]) for i in range(len(b)) for j in range(i))


def p_mul(p, q):
    if len(p) * len(q) > 4000:
        raise OverflowError
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            if m1 and m2 and _clash(m):
                continue
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def p_pow(p, k):
    r = p_const(1)
    for _ in range(k):
        r = p_mul(r, p)
    return r


def show_poly(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items(), key=lambda kv: sorted((a.id, e) for a, e in kv[0])):
        fs = ['%s%s' % (show(a, 3), '' if e == 1 else '^%s' % e) for a, e in sorted(m, key=lambda x: x[0].id)]
        if c != 1 or not fs:
            fs.insert(0, str(c))
        out.append('*'.join(fs))
    return ' + '.join(out)


def ind(c):
    """Indicator polynomial of a condition."""
    c = strip(c)
    if c.op == 'const':
        return p_const(1 if c.args[1] else 0)
    if c.op in ('not', 'inv'):
        return p_add(p_const(1), ind(c.args[0]), -1)
    if c.op == 'le':
        return p_add(p_const(1), ind(mk('lt', c.args[1], c.args[0])), -1)
    if c.op in ('and', 'band'):
        r = p_const(1)
        for x in c.args:
            r = p_mul(r, ind(x))
        return r
    if c.op in ('or', 'bor'):
        r = p_const(1)
        for x in c.args:
            r = p_mul(r, p_add(p_const(1), ind(x), -1))
        return p_add(p_const(1), r, -1)
    if c.op == 'phi':
        i = ind(c.args[0])
        return p_add(p_mul(i, ind(c.args[1])), p_mul(p_add(p_const(1), i, -1), ind(c.args[2])))
    if c.op == 'call' and fname(c) == 'not':
        return p_add(p_const(1), ind(call_parts(c)[2][0]), -1)
    if c.op == 'call' and fname(c) == 'any':
        a = strip(call_parts(c)[2][0])
        if is_const(a, True):
            return p_const(1)
    if c.op == 'call' and fname(c) in ('band', 'bor'):
        a = call_parts(c)[2]
        return ind(mk(fname(c), a[0], a[1]))
    k = canon(c)
    if k.op == 'const':
        return p_const(1 if k.args[1] else 0)
    if is_len(k):
        return p_add(p_const(1), p_atom(mk('eq', *sorted((ZERO, k)))), -1)
    if k.op == 'poly' and is_bool(c):
        return dict(k.args[0])
    if not is_bool(k):
        k = mk('truth', k)
    return p_atom(k)


_pmemo = {}


def poly(n):
    r = _pmemo.get((n.id, len(BOOL_SYMS)))
    if r is None:
        try:
            r = _poly(n)
        except (OverflowError, RecursionError):
            r = p_atom(n)
        _pmemo[(n.id, len(BOOL_SYMS))] = r
    return r


def str_parts(n):
    """Pieces of a concatenated or formatted string, or None."""
    if n.op == 'const':
        return [n] if n.args[0] == 'str' else None
    if n.op == 'fstr':
        out = []
        for x in n.args:
            out += str_parts(x) or [x]
        return out
    if n.op == 'add':
        l, r = str_parts(n.args[0]), str_parts(n.args[1])
        if l is None and r is None:
            return None
        return (l or [n.args[0]]) + (r or [n.args[1]])
    if n.op == 'call':
        k, nm, a, kw = call_parts(n)
        if k == 'meth' and nm == 'format' and a[0].op == 'const' and a[0].args[0] == 'str' and not kw and not any(x.op == 'star' for x in a):
            t = a[0].args[1].split('{}')
            if len(t) == len(a) and not any('{' in x or '}' in x for x in t):
                out = []
                for i, x in enumerate(t):
                    if x:
                        out.append(const(x))
                    if i + 1 < len(t):
                        out += str_parts(a[i + 1]) or [a[i + 1]]
                return out
        if k == 'ext' and nm == 'builtins.str' and len(a) == 1:
            return str_parts(a[0]) or [a[0]]
    if n.op == 'mod' and n.args[0].op == 'const' and n.args[0].args[0] == 'str':
        v = list(n.args[1].args) if n.args[1].op == 'tuple' else [n.args[1]]
        t = n.args[0].args[1].replace('%d', '%s').split('%s')
        if len(t) == len(v) + 1 and not any('%' in x for x in t):
            out = []
            for i, x in enumerate(t):
                if x:
                    out.append(const(x))
                if i < len(v):
                    out.append(v[i])
            return out
    return None


def t_str(parts):
    out = []
    for x in parts:
        x = canon(x)
        if x.op == 'const' and out and out[-1].op == 'const':
            out[-1] = const(str(out[-1].args[1]) + str(x.args[1]))
        elif x.op == 'const':
            out.append(const(str(x.args[1])))
        else:
            out.append(x)
    out = [x for x in out if x is not const('')]
    if all(x.op == 'const' for x in out):
        return out[0] if out else const('')
    return mk('fstr', *out)


def _poly(n):
    n = strip(n)
    if n.op in ('add', 'fstr', 'call', 'mod'):
        z = str_parts(n)
        if z is not None:
            return p_atom(t_str(z))
    op, a = n.op, n.args
    if op == 'const':
        if a[0] in ('int', 'float', 'bool'):
            f = _frac(a[1])
            if f is not None:
                return p_const(f)
        return p_atom(n)
    if op == 'poly':
        return dict(a[0])
    if op == 'add':
        return p_add(poly(a[0]), poly(a[1]))
    if op == 'sub':
        return p_add(poly(a[0]), poly(a[1]), -1)
    if op == 'mul':
        return p_mul(poly(a[0]), poly(a[1]))
    if op == 'neg':
        return p_add({}, poly(a[0]), -1)
    if op == 'div':
        return p_div(poly(a[0]), poly(a[1]), a[1])
    if op == 'pow':
        if is_num(a[1]) and isinstance(a[1].args[1], (int, float)) and float(a[1].args[1]).is_integer():
            k = int(a[1].args[1])
            p = poly(a[0])
            if 0 <= k <= 4:
                return p_pow(p, k)
            if len(p) == 1:
                (m, c), = p.items()
                return {frozenset((x, e * k) for x, e in m): c ** k}
        return p_atom(mk('f', 'pow', canon(a[0]), canon(a[1])))
    if op == 'phi':
        i = ind(a[0])
        return p_add(p_mul(i, poly(a[1])), p_mul(p_add(p_const(1), i, -1), poly(a[2])))
    if op == 'upd' and is_bool(a[1]):
        i = ind(a[1])
        v = a[2]
        kc = canon(a[1])
        v = subst(v, lambda x: x.args[0] if x.op == 'index' and canon(x.args[1]) is kc else None)
        return p_add(p_mul(p_add(p_const(1), i, -1), poly(a[0])), p_mul(i, poly(v)))
    if op == 'upd' and _trivial_index(a[1]):
        return poly(a[2])
    if op == 'call':
        f = fname(n)
        if f:
            k, nm, args, kw = call_parts(n)
            if f in ('mul', 'add', 'sub', 'div', 'pow') and len(args) == 2:
                return poly(mk(f, args[0], args[1]))
            if f == 'neg' and args:
                return poly(mk('neg', args[0]))
            if f == 'square' and args:
                return p_pow(poly(args[0]), 2)
            if f == 'where' and len(args) == 3:
                return poly(t_phi(args[0], args[1], args[2]))
            if f in ('zeros', 'zeros_like'):
                return {}
            if f in ('ones', 'ones_like'):
                return p_const(1)
            if f in ('sum', 'mean') and args and len(args) == 1:
                # linear: distribute over additive terms, pull constants out
                axis = kw.get('axis', kw.get('dim'))
                out = {}
                for m, c in poly(args[0]).items():
                    body = _mono_node(m)
                    out = p_add(out, {frozenset([(mk('f', f, body, canon(axis) if axis is not None else NONE), 1)]): c})
                return out
    if is_bool(n):
        return ind(n)
    c = canon(n)
    if c.op == 'poly' and c is not n:
        return dict(c.args[0])
    if c.op == 'const' and c.args[0] in ('int', 'float', 'bool') and _frac(c.args[1]) is not None:
        return p_const(_frac(c.args[1]))
    return p_atom(c)


def p_div(p, q, qn):
    if len(q) == 1:
        (m, c), = q.items()
        inv = {frozenset((x, -e) for x, e in m): 1 / c}
        return p_mul(p, inv)
    return p_mul(p, p_atom(mk('recip', canon(qn))))


def _mono_node(m):
    if not m:
        return ONE
    if len(m) == 1:
        (a, e), = m
        if e == 1:
            return a
    return mk('poly', frozenset([(m, Fraction(1))]))


ARITH = {'add', 'sub', 'mul', 'neg', 'div', 'pow', 'phi'}


def from_poly(p):
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return const(int(c)) if c.denominator == 1 else const(float(c))
        if c == 1:
            return _mono_node(m)
    return mk('poly', frozenset(p.items()))


def canon(n):
    """Canonical node (equal canon => equal value up to shape, dtype, copies)."""
    if n._canon is not None and n._canon[0] == len(BOOL_SYMS):
        return n._canon[1]
    try:
        r = _canon(n)
    except RecursionError:
        r = n
    n._canon = (len(BOOL_SYMS), r)
    return r


def _canon_red(f, p, kws):
    z = from_poly(p)
    return mk('f', f, z, *[mk('kw', x, canon(v)) for x, v in sorted(kws.items())])


def alloc_shape(n):
    """Dimensions of an array allocated with a given shape (possibly filled since), or None."""
    while n.op in ('upd', 'fillmap'):
        n = n.args[0] if n.op == 'upd' else n.args[1]
    if n.op != 'call':
        return None
    k, nm, args, kw = call_parts(n)
    if k == 'ext' and nm.split('.')[-1] in ('zeros', 'ones', 'empty', 'full') and nm.split('.')[0] in ('numpy', 'torch') and args:
        if args[0].op in ('tuple', 'list'):
            z = args[0].args
        elif nm.startswith('torch') and nm != 'torch.full':
            z = args
        elif args[0].op == 'const' and isinstance(args[0].args[1], int):
            z = args[:1]
        elif nm == 'numpy.zeros' or nm == 'numpy.ones' or nm == 'numpy.empty':
            z = args[:1] if args[0].op in ('call', 'index', 'add', 'sub', 'mul') and not (args[0].op == 'call' and False) else ()
        else:
            z = ()
        if z and not any(x.op == 'star' for x in z):
            return list(z)
    return None


# parameter names and defaults of sampling functions
SIGS = {'numpy.random.randint': (['low', 'high', 'size', 'dtype'], {}), 'numpy.random.choice': (['a', 'size', 'replace', 'p'], {'replace': True}),
        'numpy.random.uniform': (['low', 'high', 'size'], {'low': 0, 'high': 1}), 'numpy.random.normal': (['loc', 'scale', 'size'], {'loc': 0, 'scale': 1}),
        'numpy.random.multivariate_normal': (['mean', 'cov', 'size'], {}), 'numpy.random.exponential': (['scale', 'size'], {'scale': 1}),
        'numpy.random.random': (['size'], {}), 'torch.randint': None, 'numpy.random.binomial': (['n', 'p', 'size'], {}),
        'numpy.random.beta': (['a', 'b', 'size'], {}), 'numpy.random.gamma': (['shape', 'scale', 'size'], {'scale': 1}), 'numpy.random.poisson': (['lam', 'size'], {'lam': 1})}


def _canon_sampling(n):
    nm = n.args[0].args[0]
    names, dflt = SIGS[nm]
    args, kw = n.args[1].args, dict(n.args[2].args)
    if len(args) > len(names) or any(x.op == 'star' for x in args) or '**' in kw:
        return None
    v = dict(zip(names, args))
    if set(v) & set(kw):
        return None
    v.update(kw)
    if nm == 'numpy.random.randint' and v.get('high', NONE) is NONE:
        v['high'] = v.get('low', NONE)
        v['low'] = ZERO
    out = []
    for k in sorted(v):
        x = canon(v[k])
        if x is NONE or k in dflt and x.op == 'const' and x.args[1] == dflt[k]:
            continue
        if k == 'size' and x.op in ('tuple', 'list') and len(x.args) == 1:
            x = x.args[0]
        out.append((k, x))
    return mk('call', n.args[0], mk('tuple'), mk('kwargs', *out), *n.args[3:])


METH_SIGS = {}
# parameters of library functions that are given by position or by name
FPOS = {'clip': ((1, ('a_min', 'min')), (2, ('a_max', 'max'))), 'full': ((1, ('fill_value',)),), 'repeat': ((1, ('repeats',)),), 'tile': ((1, ('reps',)),),
        'expand_dims': ((1, ('axis',)),), 'unsqueeze': ((1, ('axis',)),), 'squeeze': ((1, ('axis',)),), 'reshape': ((1, ('shape', 'newshape')),),
        'linspace': ((1, ('stop',)), (2, ('num',))), 'stack': ((1, ('axis',)),), 'take': ((1, ('indices',)),)}


def _positional(a):
    """Arguments of a method call in positional form, defaults left out, where every method of that name agrees."""
    pos, kws = list(a[1].args), [tuple(x) for x in a[2].args]
    sigs = METH_SIGS.get(a[0].args[1]) if a[0].op in ('attr', 'meth') else None
    if not sigs or any(x.op == 'star' for x in pos) or any(k == '**' or k is None for k, _ in kws):
        return pos, kws
    n0 = len(pos)
    while kws:
        names = {ps[len(pos)] if len(ps) > len(pos) and not va else None for ps, _, va in sigs}
        if len(names) != 1 or None in names:
            break
        k = [x for x in kws if x[0] in names]
        if not k:
            # the parameter in between was left at its default
            nm = next(iter(names))
            ds = {repr(d.get(nm, sigs)) for _, d, _ in sigs}
            if len(ds) != 1 or nm not in sigs[0][1]:
                break
            pos.append(const(sigs[0][1][nm]))
            continue
        pos.append(k[0][1])
        kws.remove(k[0])
    if kws:
        # could not be completed: leave the rest by name
        while len(pos) > n0 and not any(pos[-1] is v for _, v in a[2].args):
            pos.pop()
    while pos and not kws:
        i = len(pos) - 1
        names = {ps[i] if len(ps) > i and not va else None for ps, _, va in sigs}
        if len(names) != 1 or None in names:
            break
        nm = next(iter(names))
        c = canon(pos[i])
        if c.op != 'const' or not all(nm in d and d[nm] == c.args[1] and type(d[nm]) is type(c.args[1]) for _, d, _ in sigs):
            break
        pos.pop()
    return pos, kws


def _canon(n):
    n = strip(n)
    if n.op in ('add', 'fstr', 'call', 'mod'):
        z = str_parts(n)
        if z is not None:
            return t_str(z)
        if n.op == 'call' and n.args[0].op == 'ext' and SIGS.get(n.args[0].args[0]):
            z = _canon_sampling(n)
            if z is not None:
                return z
    op, a = n.op, n.args
    if op == 'attr' and a[1] in ('size', 'shape') or op == 'call' and a[0].op == 'ext' and a[0].args[0] == 'builtins.len' and len(a[1].args) == 1:
        x = a[1].args[0] if op == 'call' else None
        if x is not None and x.op == 'map' and len(x.args) == 4 and x.args[2] is TRUE and isinstance(x.args[3], N) and x.args[3] is not NONE:
            return canon(x.args[3])
        z = alloc_shape(a[0] if op == 'attr' else a[1].args[0])
        if z is not None:
            if op == 'attr' and a[1] == 'shape':
                return canon(mk('tuple', *z))
            if op == 'call' or len(z) == 1:
                return canon(z[0])
    if op == 'index' and a[1].op == 'const' and a[0].op == 'attr' and a[0].args[1] == 'shape':
        z = alloc_shape(a[0].args[0])
        if z is not None and isinstance(a[1].args[1], int) and -len(z) <= a[1].args[1] < len(z):
            return canon(z[a[1].args[1]])
    if op == 'new':
        return mk('new', *[tuple(canon(y) if isinstance(y, N) else y for y in x) if isinstance(x, tuple) else x for x in a])
    if op in ('const', 'sym', 'param', 'self', 'ext', 'poly', 'f', 'lv', 'idx', 'closure', 'func', 'cls', 'module', 'truth', 'recip'):
        return n
    if op in ARITH:
        return from_poly(poly(n))
    if op == 'upd' and (is_bool(a[1]) or _trivial_index(a[1])):
        return from_poly(poly(n))
    if op in ('not', 'inv', 'and', 'or', 'band', 'bor', 'le') and (op in ('not', 'le', 'and', 'or') or is_bool(n)):
        return from_poly(ind(n))
    if op == 'call':
        f = fname(n)
        if f in ('mul', 'add', 'sub', 'div', 'pow', 'neg', 'square', 'zeros', 'ones', 'zeros_like', 'ones_like', 'not', 'band', 'bor', 'sum', 'mean') or f == 'where' and len(call_parts(n)[2]) == 3:
            return from_poly(poly(n))
        if f:
            k, nm, args, kw = call_parts(n)
            kws = {('axis' if x == 'dim' else x): v for x, v in kw.items() if x not in ('keepdims', 'keepdim', 'dtype', 'device')}
            if f in ('max', 'min', 'any', 'all', 'argmax', 'argmin', 'sum', 'mean', 'prod', 'std', 'var', 'cumsum') and len(args) == 2 and k + nm != 'xx':
                if not (k == 'ext' and nm.startswith('builtins')):
                    kws.setdefault('axis', args[1])
                    args = args[:1]
            if f in ('max', 'min', 'clip_', 'abs', 'sqrt') and len(args) == 1:
                z = canon(args[0])
                if z is ZERO or (z.op == 'const' and f in ('max', 'min')):
                    return z
                if f in ('max', 'min') and z.op == 'poly':
                    # a per-sample end-of-episode mask is constant along the reduced axis and 0/1
                    p = dict(z.args[0])
                    for b in {at for m in p for at, _ in m if is_flag(at)}:
                        p0 = {m: c for m, c in p.items() if not any(at is b for at, _ in m)}
                        p1 = {}
                        for m, c in p.items():
                            p1 = p_add(p1, {frozenset(x for x in m if x[0] is not b): c})
                        red = lambda q: p_atom(_canon_red(f, q, kws))
                        if not p1:
                            return from_poly(p_mul(p_add(p_const(1), p_atom(b), -1), red(p0)))
                        if not p0:
                            return from_poly(p_mul(p_atom(b), red(p1)))
            if f == 'arange' and k == 'ext':
                if len(args) == 3 and is_const(args[2], 1):
                    args = args[:2]
                if len(args) == 2 and is_const(args[0], 0):
                    args = args[1:]
            if f in ('maximum', 'minimum') and len(args) == 2 and canon(args[0]) is canon(args[1]):
                return canon(args[0])
            if f in ('maximum', 'minimum') and len(args) == 2:
                x, y = sorted((canon(args[0]), canon(args[1])))
                return mk('f', f, x, y)
            if f in ('max', 'min') and k == 'ext' and nm.startswith('builtins') and len(args) == 2:
                x, y = sorted((canon(args[0]), canon(args[1])))
                return mk('f', f + 'imum', x, y)
            if f in ('cat', 'stack', 'hstack') and args and args[0].op == 'list':
                args = [mk('tuple', *args[0].args)] + list(args[1:])
            for i, names in FPOS.get(f, ()):
                k = [x for x in names if x in kws]
                if len(args) == i and k:
                    args = list(args) + [kws.pop(k[0])]
            if f == 'cat' and 'axis' in kws and is_const(canon(kws['axis']), 0):
                del kws['axis']
            if f == 'cat' and len(args) == 2 and is_const(canon(args[1]), 0):
                args = args[:1]
            return mk('f', f, *([canon(x) for x in args] + [mk('kw', x, canon(v)) for x, v in sorted(kws.items())]))
        pos, kws = _positional(a)
        return mk('call', canon(a[0]), mk('tuple', *[canon(x) for x in pos]),
                  mk('kwargs', *[(k, canon(v)) for k, v in kws]), *a[3:])
    if op == 'eq':
        for x, y in ((a[0], a[1]), (a[1], a[0])):
            p, k = strip(x), strip(y)
            if p.op == 'phi' and k.op == 'const' and isinstance(k.args[1], str):
                return canon(t_phi(p.args[0], mk('eq', p.args[1], k), mk('eq', p.args[2], k)))
        if a[0].op == a[1].op == 'const' and isinstance(a[0].args[1], str) and isinstance(a[1].args[1], str):
            return const(a[0].args[1] == a[1].args[1])
    new = []
    for x in a:
        if isinstance(x, N):
            new.append(canon(x))
        elif isinstance(x, tuple):
            new.append(tuple(canon(y) if isinstance(y, N) else y for y in x))
        else:
            new.append(x)
    if op == 'upd' and len(new) == 3:
        return t_upd(*new)
    if op == 'slice':
        return t_slice(*new)
    if op == 'index' and new[0].op != 'poly':
        return t_index(*new)
    if op == 'index' and new[0].op == 'poly':
        return _canon_index(new[0], new[1])
    if op in ('eq', 'lt') and ('poly' in (new[0].op, new[1].op)):
        return _canon_cmp(op, new[0], new[1])
    if op == 'lt' and is_len(new[1]) and new[0] is ZERO:
        return from_poly(p_add(p_const(1), p_atom(mk('eq', *sorted((ZERO, new[1])))), -1))
    if op == 'lt' and is_len(new[0]) and is_const(new[1], 1):
        return mk('eq', *sorted((ZERO, new[0])))
    if op == 'is' and new[1] is NONE and new[0].op == 'poly':
        r = _is_none_poly(new[0])
        if r is not None:
            return r
    if op == 'in' and new[1].op == 'const' and isinstance(new[1].args[1], str) and len(new[1].args[1]) > 1:
        # a command name: the substrings of the literal are not used as names of their own
        op = 'eq'
    if op in ('eq', 'band', 'bor', 'bxor') and new[1].id < new[0].id:
        new.reverse()
    return mk(op, *new)


def _is_none_poly(n):
    """is(phi(c, None, x), None) written over indicator polynomials: the condition under which the value is None."""
    p = dict(n.args[0])
    none = {m: c for m, c in p.items() if any(a is NONE for a, e in m)}
    rest = {m: c for m, c in p.items() if m not in none}
    cond = {frozenset(x for x in m if x[0] is not NONE): c for m, c in none.items()}
    if not none or not all(is_bool(a) for m in cond for a, e in m) or not rest:
        return None
    vals = {a for m in rest for a, e in m if not is_bool(a)}
    if all(v.op in ('list', 'tuple', 'new', 'fstr', 'f', 'map', 'index', 'dict') for v in vals) and vals and not any(v.op == 'index' for v in vals):
        return from_poly(cond)
    return None


SCALAR_RED = {'sum', 'mean', 'max', 'min', 'std', 'var', 'norm', 'prod', 'any', 'all'}


def is_scalar(n):
    """Values that are scalars whatever the shapes of their operands."""
    if n.op == 'const':
        return True
    if n.op == 'f':
        return n.args[0] in SCALAR_RED and all(x is NONE for x in n.args[2:])
    if n.op == 'is':
        return True
    if n.op == 'call':
        k, nm, a, kw = call_parts(n)
        return k == 'ext' and nm in ('builtins.len', 'builtins.isinstance', 'builtins.hasattr')
    if n.op in ('eq', 'lt'):
        return is_scalar(n.args[0]) and is_scalar(n.args[1])
    return False


def _canon_index(b, k):
    """Selection commutes with elementwise arithmetic by scalars."""
    p = dict(b.args[0])
    out = {}
    for m, c in p.items():
        arr = [x for x in m if not is_scalar(x[0])]
        if len(arr) > 1:
            return mk('index', b, k)
        if not arr:
            m2 = m
        else:
            (x, e), = arr
            z = mk('index', x, k)
            m2 = frozenset([y for y in m if y is not arr[0]] + [(canon(z), e)])
        out = p_add(out, {m2: c})
    return from_poly(out)


def _canon_cmp(op, x, y):
    """Linear rearrangement: positive terms on one side, negative ones and the constant on the other, scaled by the leading coefficient."""
    p = p_add(poly(x), poly(y), -1)
    c = p.pop(frozenset(), Fraction(0))
    if not p:
        return const(bool(c == 0 if op == 'eq' else c < 0))
    lead = min(p, key=lambda m: sorted((a.id, e) for a, e in m))
    k = abs(p[lead])
    s = p[lead] > 0
    p = {m: v / k * (1 if s else -1) for m, v in p.items()}
    c = -c / k * (1 if s else -1)            # p == c, or p < c (s) / c < p (not s)
    l = from_poly({m: v for m, v in p.items() if v > 0})
    r = p_add(p_const(c), {m: -v for m, v in p.items() if v < 0})
    r = from_poly(r)
    if op == 'eq':
        a = dict(p)
        if len(a) == 1 and c in (0, 1):
            (m, v), = a.items()
            if v == 1 and len(m) == 1:
                (at, e), = m
                if is_bool(at):
                    return at if c == 1 else from_poly(p_add(p_const(1), p_atom(at), -1))
        return mk('eq', *sorted((l, r)))
    return mk('lt', l, r) if s else mk('lt', r, l)


def equal(a, b):
    if canon(a) is canon(b):
        return True
    return poly(a) == poly(b)


# ------------------------------------------------------------- substitution
def subst(n, f, memo=None):
    """Rebuild n bottom-up, f(node)->node or None (keep)."""
    memo = {} if memo is None else memo
    if n.id in memo:
        return memo[n.id]
    r = f(n)
    if r is None:
        new, ch = [], False
        for x in n.args:
            if isinstance(x, N):
                y = subst(x, f, memo)
            elif isinstance(x, tuple):
                y = tuple(subst(z, f, memo) if isinstance(z, N) else z for z in x)
            elif isinstance(x, frozenset):
                # poly payload: substitute monomial atoms
                p = {}
                for m, c in x:
                    q = {frozenset(): c}
                    for at, e in m:
                        b = poly(subst(at, f, memo))
                        if e >= 0:
                            q = p_mul(q, p_pow(b, e))
                        elif len(b) == 1:
                            (mm, cc), = b.items()
                            q = p_mul(q, {frozenset((z, ee * e) for z, ee in mm): cc ** e})
                        else:
                            q = p_mul(q, p_atom(at))
                    p = p_add(p, q)
                memo[n.id] = r = from_poly(p)
                return r
            else:
                y = x
            ch = ch or (y is not x)
            new.append(y)
        if not ch:
            r = n
        elif n.op == 'phi':
            r = t_phi(*new)
        elif n.op == 'not':
            r = t_not(new[0])
        elif n.op in ('and', 'or'):
            r = t_bool(n.op, new)
        elif n.op in ('lt', 'le', 'eq', 'is', 'in'):
            r = t_cmp(n.op, *new)
        elif n.op in ('add', 'sub', 'mul', 'div', 'pow', 'floordiv', 'mod'):
            r = t_bin(n.op, *new)
        else:
            r = mk(n.op, *new)
    memo[n.id] = r
    return r


def assume(n, facts):
    """Specialise n under facts {node: const node}; matched on canonical form of conditions as well.
    A fact about the truth of a value that is not itself boolean only decides conditions."""
    ids, cids, tids = {}, {}, {}
    for k, v in facts.items():
        c = canon(k)
        if is_bool(k) or is_bool(c) or is_flag(c):
            ids[k.id] = v
            cids[c.id] = v
        elif k.op == 'truth':
            tids[c.args[0].id] = v
            cids[c.id] = v
        else:
            tids[c.id] = v
            cids[mk('truth', c).id] = v
    memo = {}

    def cond(x):
        y = strip(x)
        if y.op == 'not':
            return t_not(cond(y.args[0]))
        if y.op in ('and', 'or'):
            return t_bool(y.op, [cond(z) for z in y.args])
        c = canon(y)
        if c.id in tids:
            return tids[c.id]
        if is_len(c):
            z = cids.get(mk('eq', *sorted((ZERO, c))).id)
            if z is not None:
                return t_not(z)
        return subst(x, f, memo)

    def f(x):
        if x.id in ids:
            return ids[x.id]
        if x.op in ('sym', 'param', 'attr', 'index', 'elem', 'call', 'is', 'eq', 'lt', 'le', 'truth', 'in'):
            c = canon(x)
            if c.id in cids:
                return cids[c.id]
            if x.op in ('lt', 'eq', 'is', 'le') and c.op == 'poly' and c is not x:
                z = subst(c, f, memo)
                if z.op == 'const':
                    return TRUE if z.args[1] else FALSE
        if x.op == 'phi':
            c = cond(x.args[0])
            if c.op == 'const':
                return subst(x.args[1] if c.args[1] else x.args[2], f, memo)
            return t_phi(c, subst(x.args[1], f, memo), subst(x.args[2], f, memo))
        if x.op in ('not', 'and', 'or'):
            return cond(x)
        return None
    r = subst(n, f, memo)
    if tids and canon(n).id in tids and not is_bool(n):
        pass
    return r
