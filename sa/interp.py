"""Value-graph construction: an abstract interpreter over the syntax tree.

It computes, for a method of a concrete class, (i) a gated value graph (every
expression becomes a hash-consed node, joins become gated phi nodes, loops
become loop-variable nodes with an (init, step) table) and (ii) a structured
tree of effect events (calls, attribute and element writes, in-place updates,
returns) with the guard under which each one happens.  Nothing is executed:
branches are joined, loops are summarised, unknown calls stay opaque."""
import ast
import os
from .program import Class, Func, AnalysisError
from . import terms as T
from .terms import mk, const, NONE, TRUE, FALSE, N

BINOP = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
         ast.Pow: 'pow', ast.MatMult: 'matmul', ast.BitAnd: 'band', ast.BitOr: 'bor', ast.BitXor: 'bxor',
         ast.LShift: 'shl', ast.RShift: 'shr'}
CMP = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Eq: 'eq', ast.NotEq: 'ne', ast.Is: 'is',
       ast.IsNot: 'isnot', ast.In: 'in', ast.NotIn: 'notin'}

PURE_METHODS = T.TRANSPARENT_M | T.UNIFY | set('''shape size dim numel items keys values get index count join format split
startswith endswith predict __call__ get_weights get_parameters log_prob entropy entropy_t diff_log diff_log_t diff lower upper
transpose permute masked_select index_select expand t rsample_ is_absorbing issubset union intersection norm
get_value get_mu log_prob_t distribution_t distribution lower strip replace isdigit zero trace inverse cholesky
parameters state_dict named_parameters children modules compute_J undiscounted_return discounted_return parse
get_all_models get_q get_batch_size __len__ mean_t has_attr diagonal'''.split())

RANDOM_ROOTS = ('numpy.random.', 'random.', 'torch.rand', 'torch.randn', 'torch.randint', 'torch.randperm', 'torch.normal',
                'torch.multinomial', 'torch.bernoulli', 'torch.empty_like_')

INPLACE_METHODS = set('''append extend insert pop popleft appendleft remove clear update sort reverse fill setdefault put resize add discard'''.split())
INPLACE_FUNCS = {'numpy.copyto', 'numpy.put', 'numpy.place', 'numpy.putmask', 'numpy.fill_diagonal', 'numpy.random.shuffle', 'random.shuffle'}


class Ev:
    """An effect event."""
    __slots__ = ('kind', 'guard', 'file', 'func', 'line', 'ctx', 'd', 'kids', 'site')

    def __init__(self, kind, guard, file, func, line, ctx, **d):
        self.kind, self.guard, self.file, self.func, self.line, self.ctx, self.d = kind, guard, file, func, line, ctx, d
        self.kids = []

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def get(self, k, default=None):
        return self.d.get(k, default)

    @property
    def where(self):
        return '%s:%s' % (self.file, self.func)

    def __repr__(self):
        return '<%s %s %s:%d>' % (self.kind, {k: v for k, v in self.d.items()}, self.func, self.line)


class State:
    __slots__ = ('frames', 'heap', 'over', 'epoch', 'pc', 'events')

    def __init__(self):
        self.frames, self.heap, self.over, self.epoch, self.pc, self.events = [{}], {}, {}, {}, (), []

    @property
    def env(self):
        return self.frames[-1]

    def copy(self):
        s = State()
        s.frames = [dict(f) for f in self.frames]
        s.heap, s.over, s.epoch = dict(self.heap), dict(self.over), dict(self.epoch)
        s.pc, s.events = self.pc, self.events
        return s


UNDEF = mk('undef')


def t_and(cs):
    return T.t_bool('and', list(cs)) if cs else TRUE


_vocab = None


def vocabulary():
    """Identifiers (attributes, functions) used by the package at the pinned commit."""
    global _vocab
    if _vocab is None:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vocabulary.txt')
        _vocab = set(open(p).read().split()) if os.path.exists(p) else set()
    return _vocab


def abstract(node):
    """A method left to the subclasses: its body only raises NotImplementedError."""
    b = node.body
    if not isinstance(b, list):
        return False
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
        b = b[1:]
    if len(b) != 1 or not isinstance(b[0], ast.Raise) or b[0].exc is None:
        return False
    x = b[0].exc.func if isinstance(b[0].exc, ast.Call) else b[0].exc
    return isinstance(x, ast.Name) and x.id == 'NotImplementedError'


# operations that leave the receiver's learnt quantities alone
READERS = set('''draw_action predict get_value get_weights get_state action_type __getitem__ __len__ parse item get_view'''.split())


class Policy:
    """Which opaque calls are opened up."""
    inline_all_self = True
    max_depth = 14

    def __init__(self, inline=(), opaque=(), types=None, pure=(), ctor=()):
        self.inline, self.opaque, self.types, self.pure, self.ctor = set(inline), set(opaque), dict(types or {}), set(pure), set(ctor)

    def want(self, func, recv, interp):
        if abstract(func.node) and func.name in vocabulary():
            return False
        if func.name in self.opaque or func.qual in self.opaque:
            return False
        if func.name in self.inline or func.qual in self.inline or (func.cls and func.cls.name in self.inline):
            return True
        if func.kind in ('static', 'class') or func.cls is None:
            return True
        if recv is not None and recv.op == 'self':
            return True
        if recv is not None and recv.op == 'new' and recv.args[0] in interp.opened:
            return True
        return False

    def want_ctor(self, cls):
        return cls.name in self.ctor or cls.qual in self.ctor


class Frame:
    def __init__(self, func, node, module, cls, selfn, base_pc, fid):
        self.func, self.node, self.module, self.cls, self.selfn = func, node, module, cls, selfn
        self.base_pc, self.fid = base_pc, fid
        self.exits = []
        self.loops = []
        self.globals = set()
        self.nonlocals = set()
        self.qual = func.qual if func else '?'


class Loop:
    def __init__(self, lid, base):
        self.lid, self.base = lid, base
        self.brk, self.cont = [], []


class Result:
    def __init__(self, ret, state, events, exits, interp, args):
        self.ret, self.state, self.events, self.exits, self.interp, self.args = ret, state, events, exits, interp, args

    def content(self, n):
        return self.interp.content(n, self.state) if self.state is not None else n

    def attr(self, obj, name):
        v = self.state.heap.get((obj, name))
        return self.interp.content(v, self.state) if v is not None else None


def is_ndarray(n):
    """Calls that always return a numpy array."""
    n = T.strip(n)
    if n.op != 'call' or n.args[0].op != 'ext':
        return False
    f = n.args[0].args[0]
    if f in ('numpy.array', 'numpy.zeros', 'numpy.ones', 'numpy.arange', 'numpy.concatenate', 'numpy.append', 'numpy.empty', 'numpy.full', 'numpy.linspace', 'numpy.stack', 'numpy.random.permutation'):
        return True
    kw = dict(n.args[2].args)
    if f.startswith('numpy.random.') and f.rsplit('.', 1)[1] in ('randint', 'choice', 'uniform', 'normal', 'rand', 'randn'):
        z = kw.get('size')
        return z is not None and z is not T.NONE or f.endswith('randint') and len(n.args[1].args) > 2
    return False


class Interp:
    def __init__(self, prog, policy=None):
        self.prog, self.policy = prog, policy or Policy()
        self.stack = []
        self.active = ()            # functions the entry stands for: calls back to them are recursive
        self.ctx = ()
        self.closures = {}
        self.LV = {}              # (loop id, key) -> (init, step)
        self.LOOPS = {}           # loop id -> dict(iter=, file, func, line)
        self.TYPES = {}           # node id -> Class
        self.opened = set()
        self.n_inlined = 0
        self.n_funcs = set()
        self.n_calls = 0
        self.unknown = []
        self.chain = ()
        self._attr_types = {}
        self._mutating = 0
        self.settings = {}
        self.lamdepth = 0
        self.NEW = {}             # allocation site -> constructor arguments
        self.steps = 0

    # ------------------------------------------------------------ helpers
    def emit(self, st, kind, at=None, **d):
        f = self.stack[-1] if self.stack else None
        ev = Ev(kind, t_and(st.pc), f.module.rel if f else '?', f.qual if f else '?', getattr(at, 'lineno', 0), self.ctx, **d)
        ev.site = (self.chain, getattr(at, 'lineno', 0), getattr(at, 'col_offset', 0))
        st.events.append(ev)
        return ev

    def site(self, node):
        f = self.stack[-1]
        return (self.chain, f.module.rel, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))

    def content(self, n, st, value=False, memo=None):
        """Current value behind an identity node.  In value mode (inside an already
        resolved value) only allocation-site identities are followed."""
        if n.op in ('const', 'self', 'new', 'ext', 'cls', 'func'):
            return n
        memo = {} if memo is None else memo
        k = (n.id, value)
        if k in memo:
            return memo[k]
        memo[k] = n
        r = n
        if n in st.over and (not value or n.op == 'obj'):
            r = st.over[n]
            if r is not n:
                r = self.content(r, st, True, memo)
        elif n.op in ('tuple', 'list'):
            new = [self.content(x, st, value, memo) for x in n.args]
            if any(a is not b for a, b in zip(new, n.args)):
                r = mk(n.op, *new)
        elif n.op == 'phi':
            a, b = self.content(n.args[1], st, value, memo), self.content(n.args[2], st, value, memo)
            if a is not n.args[1] or b is not n.args[2]:
                r = T.t_phi(n.args[0], a, b)
        elif n.op == 'dict':
            new = [(self.content(k2, st, value, memo), self.content(v, st, value, memo)) for k2, v in n.args]
            if any(a is not b for p, q in zip(new, n.args) for a, b in zip(p, q)):
                r = mk('dict', *new)
        elif n.op in ('append', 'cat', 'star', 'upd'):
            new = [self.content(x, st, True, memo) if isinstance(x, N) else x for x in n.args]
            if any(a is not b for a, b in zip(new, n.args)):
                r = mk(n.op, *new)
        memo[k] = r
        return r

    def shallow(self, n, st):
        k = 0
        while n in st.over and k < 50:
            m = st.over[n]
            if m is n:
                break
            n = m
            k += 1
            if n.op != 'obj':
                break
        return n

    def shallow_obj(self, n, st):
        return self.shallow(n, st) if n.op == 'obj' else n

    def wrap(self, n, node, st):
        """Give a freshly allocated value its own identity."""
        if n.op in ('const', 'obj', 'self', 'new', 'func', 'cls', 'closure', 'bound', 'ext', 'module', 'undef', 'super'):
            return n
        o = mk('obj', self.site(node) + (type(node).__name__,))
        st.over[o] = n
        return o

    def val(self, e, st):
        return self.content(self.ev(e, st), st)

    def typeof(self, n, st=None):
        if st is not None:
            n = self.shallow(n, st)
        if n.id in self.TYPES:
            return self.TYPES[n.id]
        if n.op in ('self', 'new'):
            return self.prog.classes.get(n.args[0])
        if n.op == 'attr':
            if n.args[1] in self.policy.types:
                t = self.policy.types[n.args[1]]
                return self.prog.cls(t) if isinstance(t, str) else t
            b = self.typeof(n.args[0])
            if b is not None:
                return self.attr_type(b, n.args[1])
        if n.op == 'param' and n.args[0] in self.policy.types:
            t = self.policy.types[n.args[0]]
            return self.prog.cls(t) if isinstance(t, str) else t
        return None

    def attr_type(self, cls, name):
        k = (cls.qual, name)
        if k in self._attr_types:
            return self._attr_types[k]
        cands = set()
        for c in self.prog.mro(cls):
            if not isinstance(c, Class):
                continue
            for f in list(c.methods.values()) + list(c.setters.values()):
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call):
                        for t in x.targets:
                            if isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == 'self':
                                r = self.prog.resolve_expr(f.module, x.value.func)
                                if isinstance(r, Class):
                                    cands.add(r)
        r = cands.pop() if len(cands) == 1 else None
        self._attr_types[k] = r
        return r

    # ------------------------------------------------------------ merge
    def merge(self, c, a, b, base_pc, events):
        """State after a join: condition c selects a."""
        s = State()
        s.events = events
        nf = min(len(a.frames), len(b.frames))
        s.frames = []
        for i in range(nf):
            fa, fb = a.frames[i], b.frames[i]
            if fa is fb:
                s.frames.append(dict(fa))
                continue
            d = {}
            for k in list(fa) + [k for k in fb if k not in fa]:
                x, y = fa.get(k, UNDEF), fb.get(k, UNDEF)
                d[k] = x if x is y else T.t_phi(c, x, y)
            s.frames.append(d)
        for attr in ('heap', 'over'):
            da, db = getattr(a, attr), getattr(b, attr)
            d = {}
            for k in list(da) + [k for k in db if k not in da]:
                x, y = da.get(k), db.get(k)
                if x is None:
                    x = self._default(k, attr, y)
                if y is None:
                    y = self._default(k, attr, x)
                d[k] = x if x is y else T.t_phi(c, x, y)
            setattr(s, attr, d)
        for k in set(a.epoch) | set(b.epoch):
            x, y = a.epoch.get(k, 0), b.epoch.get(k, 0)
            s.epoch[k] = x if x == y else ('m', x, y)
        n = len(base_pc)
        ra, rb = a.pc[n:], b.pc[n:]
        if len(ra) == 1 and len(rb) == 1 and ra[0] is T.t_not(rb[0]) or ra == rb == ():
            s.pc = base_pc
        elif ra == rb:
            s.pc = a.pc
        else:
            o = T.t_bool('or', [t_and(ra), t_and(rb)])
            s.pc = base_pc + ((o,) if o is not TRUE else ())
        return s

    def _default(self, k, attr, other):
        if attr == 'heap':
            return mk('attr', k[0], k[1])
        if k.op == 'obj':
            return other           # allocated on one side only
        return k

    def merge_list(self, items, base_pc, events):
        """items: list of states with absolute pcs; returns one state (or None)."""
        items = [i for i in items if i is not None]
        if not items:
            return None
        cur = items[-1]
        for it in reversed(items[:-1]):
            c = t_and(it.pc[len(base_pc):])
            pa, pb = it.pc, cur.pc
            cur = self.merge(c, it, cur, base_pc, events)
        cur = cur.copy()
        cur.events = events
        return cur

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        self.steps += 1
        if self.steps > 400000:
            raise AnalysisError('analysis budget exceeded')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unknown.append(type(s).__name__)
            return st
        return m(s, st)

    def s_Pass(self, s, st):
        return st

    s_Import = s_ImportFrom = s_Pass

    def s_Import(self, s, st):
        for a in s.names:
            st.env[a.asname or a.name.split('.')[0]] = mk('module', a.name if a.asname else a.name.split('.')[0])
        return st

    def s_ImportFrom(self, s, st):
        fr = self.stack[-1]
        base = fr.module._from(s)
        for a in s.names:
            r = self.prog._imp(('from', base, a.name), set())
            st.env[a.asname or a.name] = self._glob(r, a.name)
        return st

    def s_Global(self, s, st):
        self.stack[-1].globals |= set(s.names)
        return st

    def s_Nonlocal(self, s, st):
        self.stack[-1].nonlocals |= set(s.names)
        return st

    def s_Expr(self, s, st):
        v = self.ev(s.value, st)
        if isinstance(v, N) and v.op == 'noreturn':
            self.stack[-1].exits.append(('raise', st, NONE, []))
            return None
        return st

    def s_Assert(self, s, st):
        c = self.val(s.test, st)
        self.emit(st, 'assert', s, cond=c)
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                k = self.key(t.slice, st)
                self.mutate(b, lambda c: mk('del', c, k), st, s)
                self.emit(st, 'delitem', s, base=b, key=k, basev=self.content(b, st))
            elif isinstance(t, ast.Attribute):
                b = self.shallow(self.ev(t.value, st), st)
                st.heap[(b, t.attr)] = UNDEF
                self.emit(st, 'delattr', s, obj=b, name=t.attr)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return st

    FRESH = (ast.BinOp, ast.UnaryOp, ast.Compare, ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp,
             ast.GeneratorExp, ast.Call)

    def rvalue(self, e, st):
        v = self.ev(e, st)
        if isinstance(e, self.FRESH) and v.op not in ('obj', 'attr', 'param', 'sym', 'index', 'elem', 'phi', 'tuple'):
            v = self.wrap(v, e, st)
        return v

    def s_Assign(self, s, st):
        v = self.rvalue(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.rvalue(s.value, st), st, s)
        return st

    def s_AugAssign(self, s, st):
        op = BINOP.get(type(s.op), 'op')
        t = s.target
        cur_id = self.ev(t, st) if not isinstance(t, ast.Subscript) else self.ev(t, st)
        rhs = self.val(s.value, st)
        cur = self.content(cur_id, st)
        if cur.op in ('list', 'map', 'append', 'cat') and op == 'add':
            new = self._extend(cur, rhs)
            self.mutate(cur_id, lambda c: new, st, s)
            self.emit(st, 'inplace', s, target=cur_id, op=op, value=rhs, before=cur, new=new)
            return st
        new = T.t_bin(op, cur, rhs)
        self.emit(st, 'inplace', s, target=cur_id, op=op, value=rhs, before=cur, new=new, tgt=type(t).__name__)
        if isinstance(t, ast.Name):
            st.env[t.id] = self.wrap(new, s, st)
        else:
            self.assign(t, self.wrap(new, s, st), st, s, aug=True)
        return st

    def _extend(self, cur, rhs):
        if cur.op == 'list' and rhs.op in ('list', 'tuple'):
            return mk('list', *(cur.args + rhs.args))
        if cur.op == 'list' and not cur.args:
            return rhs if rhs.op in ('map',) else mk('cat', rhs)
        return mk('cat', cur, rhs)

    def assign(self, t, v, st, node, aug=False):
        if isinstance(t, ast.Name):
            fr = self.stack[-1]
            if t.id in fr.nonlocals and len(st.frames) > 1:
                for f in reversed(st.frames[:-1]):
                    if t.id in f:
                        f[t.id] = v
                        return
            st.env[t.id] = v
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = self.unpack(v, t.elts, st)
            for x, p in zip(t.elts, parts):
                self.assign(x, p, st, node)
        elif isinstance(t, ast.Attribute):
            b = self.shallow(self.ev(t.value, st), st)
            self.set_attr(b, t.attr, v, st, node, aug)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            k = self.key(t.slice, st)
            vv = self.content(v, st)
            self.emit(st, 'setitem', node, base=b, key=k, value=vv, basev=self.content(b, st), aug=aug)
            self.mutate(b, lambda c: self.upd(c, k, v, vv), st, node)
        return

    def upd(self, c, k, v, vv):
        if c.op in ('list',) and T.is_const(k) and isinstance(k.args[1], int) and -len(c.args) <= k.args[1] < len(c.args):
            a = list(c.args)
            a[k.args[1]] = v
            return mk('list', *a)
        if c.op == 'dict':
            items = [(kk, x) for kk, x in c.args if kk is not k]
            if len(items) != len(c.args) or T.is_const(k):
                if len(items) != len(c.args):
                    return mk('dict', *[(kk, v if kk is k else x) for kk, x in c.args])
                return mk('dict', *(tuple(c.args) + ((k, v),)))
        return T.t_upd(c, k, vv)

    def set_attr(self, b, name, v, st, node, aug=False):
        if b.op == 'phi':
            for side in (1, 2):
                old = self.get_attr(b.args[side], name, st, node)
                c = b.args[0]
                nv = T.t_phi(c, v, old) if side == 1 else T.t_phi(c, old, v)
                self.set_attr(self.shallow(b.args[side], st), name, nv, st, node, aug)
            return
        cls = self.typeof(b)
        if cls is not None and not aug:
            f = self.prog.find_setter(cls, name)
            if f is not None and (b.op == 'self' or self.policy.want(f, b, self)) and len(self.stack) < self.policy.max_depth:
                self.emit(st, 'setprop', node, obj=b, name=name, value=self.content(v, st))
                self.call_func(f, [v], {}, b, st, node)
                return
        self.emit(st, 'setattr', node, obj=b, name=name, value=self.content(v, st), ident=v, old=st.heap.get((b, name)), aug=aug)
        st.heap[(b, name)] = v

    def mutate(self, ident, f, st, node):
        """Strong update of the content behind an identity (weak through phi)."""
        if ident.op == 'phi':
            c = ident.args[0]
            x, y = ident.args[1], ident.args[2]
            cx, cy = self.shallow(x, st), self.shallow(y, st)
            if cx.op != 'const':
                st.over[x] = T.t_phi(c, f(self.content(x, st)), cx)
            if cy.op != 'const':
                st.over[y] = T.t_phi(c, cy, f(self.content(y, st)))
            return
        if ident.op in ('const', 'func', 'cls', 'module', 'ext', 'self', 'new'):
            return
        cur = self.content(ident, st)
        sh = self.shallow(ident, st)
        if ident.op == 'index' and ident not in st.over:
            # element of a container: nested update of the container
            base, k = ident.args[0], ident.args[1]
            owner = self._owner(base, st)
            if owner is not None:
                new = f(cur)
                self.mutate(owner, lambda c: T.t_upd(c, k, self.content(new, st)), st, node)
                return
        new = f(sh if sh.op in ('list', 'dict') else cur)
        # follow to the innermost identity
        tgt = ident
        k = 0
        while tgt in st.over and st.over[tgt].op == 'obj' and k < 20:
            tgt = st.over[tgt]
            k += 1
        st.over[tgt] = new

    def _owner(self, contentnode, st):
        for k, v in st.over.items():
            if v is contentnode:
                return k
        if contentnode.op in ('attr', 'param', 'sym', 'index', 'elem'):
            return contentnode
        return None

    def unpack(self, v, elts, st):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        w = self.shallow(v, st)
        if w.op in ('tuple', 'list'):
            a = list(w.args)
            if not any(isinstance(x, N) and x.op == 'star' for x in a):
                if star:
                    i = star[0]
                    r = n - i - 1
                    return a[:i] + [mk('list', *a[i:len(a) - r])] + (a[len(a) - r:] if r else [])
                if len(a) == n:
                    return a
        if w.op == 'phi':
            A, B = self.unpack(w.args[1], elts, st), self.unpack(w.args[2], elts, st)
            return [T.t_phi(w.args[0], x, y) for x, y in zip(A, B)]
        w = self.content(v, st)
        if star:
            i = star[0]
            out = []
            for j in range(n):
                if j < i:
                    out.append(self.index(w, const(j), st))
                elif j == i:
                    out.append(mk('index', w, mk('slice', const(i), const(i - n + 1) if i - n + 1 else NONE, NONE)))
                else:
                    out.append(mk('index', w, const(j - n)))
            return out
        return [self.index(w, const(j), st) for j in range(n)]

    # ---- control flow
    def truth(self, c, st):
        if c.op == 'const':
            return bool(c.args[1])
        if c.op in ('list', 'tuple', 'dict') and c.op != 'dict':
            if not any(isinstance(x, N) and x.op == 'star' for x in c.args):
                return bool(c.args)
        if c.op in ('new', 'self', 'func', 'closure', 'cls', 'bound'):
            return True
        if any(x is c for x in st.pc):
            return True
        nc = T.t_not(c)
        if any(x is nc for x in st.pc):
            return False
        if c.op == 'and':
            rs = [self.truth(x, st) for x in c.args]
            if any(r is False for r in rs):
                return False
            if all(rs):
                return True
        if c.op == 'or':
            rs = [self.truth(x, st) for x in c.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        if c.op == 'not':
            r = self.truth(c.args[0], st)
            return None if r is None else not r
        return None

    def s_If(self, s, st):
        c = self.val(s.test, st)
        if c.op == 'phi' and T.is_const(c.args[1]) and T.is_const(c.args[2]):
            c = c.args[0] if c.args[1].args[1] else T.t_not(c.args[0])
        tv = self.truth(c, st)
        if tv is True:
            return self.block(s.body, st)
        if tv is False:
            return self.block(s.orelse, st)
        parent = st.events
        base = st.pc
        a, b = st.copy(), st.copy()
        ea, eb = [], []
        a.events, b.events = ea, eb
        a.pc = base + self._conj(c)
        b.pc = base + self._conj(T.t_not(c))
        a = self.block(s.body, a)
        b = self.block(s.orelse, b)
        ev = self.emit(st, 'if', s, cond=c)
        ev.kids = [ea, eb]
        if a is None and b is None:
            return None
        if a is None:
            b.events = parent
            return b
        if b is None:
            a.events = parent
            return a
        m = self.merge(c, a, b, base, parent)
        return m

    def _conj(self, c):
        if c.op == 'and':
            return (c,)
        return (c,)

    def s_Return(self, s, st):
        v = self.rvalue(s.value, st) if s.value is not None else NONE
        self.emit(st, 'return', s, value=self.content(v, st))
        fr = self.stack[-1]
        fr.exits.append(('ret', st, v, [l.lid for l in fr.loops]))
        return None

    def s_Raise(self, s, st):
        v = self.val(s.exc, st) if s.exc is not None else NONE
        self.emit(st, 'raise', s, value=v)
        self.stack[-1].exits.append(('raise', st, v, []))
        return None

    def s_Break(self, s, st):
        self.emit(st, 'break', s)
        if self.stack[-1].loops:
            self.stack[-1].loops[-1].brk.append(st)
        return None

    def s_Continue(self, s, st):
        self.emit(st, 'continue', s)
        if self.stack[-1].loops:
            self.stack[-1].loops[-1].cont.append(st)
        return None

    def s_With(self, s, st):
        old = self.ctx
        for it in s.items:
            v = self.val(it.context_expr, st)
            tag = None
            if v.op == 'call':
                k, nm, a, kw = T.call_parts(v)
                tag = nm if isinstance(nm, str) else None
            elif v.op in ('ext',):
                tag = v.args[0]
            self.ctx = self.ctx + (tag or 'with',)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
        st = self.block(s.body, st)
        self.ctx = old
        return st

    s_AsyncWith = s_With

    def s_Try(self, s, st):
        parent, base = st.events, st.pc
        ev = self.emit(st, 'try', s)
        a = st.copy()
        ea = []
        a.events = ea
        excs = [mk('exc', self.site(h), ast.unparse(h.type) if h.type is not None else '') for h in s.handlers]
        a.pc = base + tuple(T.t_not(x) for x in excs)
        a = self.block(s.body, a)
        if a is not None:
            a = self.block(s.orelse, a)
        outs = [a]
        kids = [ea]
        for i, h in enumerate(s.handlers):
            b = st.copy()
            eb = []
            b.events = eb
            b.pc = base + (excs[i],)
            if h.name:
                b.env[h.name] = mk('exc', self.site(h), 'val')
            b = self.block(h.body, b)
            outs.append(b)
            kids.append(eb)
        ev.kids = kids
        outs = [o for o in outs if o is not None]
        if not outs:
            return None
        # handlers first so that their pc is the selecting condition
        r = self.merge_list(list(reversed(outs)), base, parent) if len(outs) > 1 else outs[0]
        r.events = parent
        if len(outs) > 1 or outs[0] is a and all(not any(isinstance(x, (ast.Return, ast.Raise, ast.Continue, ast.Break)) for x in ast.walk(h)) for h in s.handlers):
            r.pc = base
        r = self.block(s.finalbody, r)
        return r

    s_TryStar = s_Try

    def s_FunctionDef(self, s, st):
        st.env[s.name] = self.closure(s, st)
        return st

    def s_ClassDef(self, s, st):
        st.env[s.name] = mk('localcls', self.site(s))
        return st

    def closure(self, node, st):
        fr = self.stack[-1]
        c = mk('closure', self.site(node), getattr(node, 'name', '<lambda>'))
        self.closures[c.id] = (node, fr.module, fr.cls, fr.selfn, dict(st.env), fr.func, len(st.frames) - 1, fr.fid)
        return c

    # ---- loops
    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        itc = self.iter_content(it, st)
        seq = self.unrollable(itc)
        if seq is not None:
            return self.unroll(s, seq, st)
        if itc.op == 'phi' and self.unrollable(itc.args[1]) is not None and self.unrollable(itc.args[2]) is not None:
            # one of two literal sequences
            c = itc.args[0]
            base, parent = st.pc, st.events
            a, b = st.copy(), st.copy()
            ea, eb = [], []
            a.events, b.events = ea, eb
            a.pc, b.pc = base + (c,), base + (T.t_not(c),)
            chain = self.chain
            self.chain = chain + (('alt', 0),)
            a = self.unroll(s, self.unrollable(itc.args[1]), a)
            self.chain = chain + (('alt', 1),)
            b = self.unroll(s, self.unrollable(itc.args[2]), b)
            self.chain = chain
            ev = self.emit(st, 'if', s, cond=c)
            ev.kids = [ea, eb]
            if a is None or b is None:
                return self.merge_list([x for x in (a, b) if x is not None], base, parent) if a or b else None
            return self.merge(c, a, b, base, parent)
        return self.loop(s, st, itc)

    s_AsyncFor = s_For

    def iter_content(self, it, st):
        c = self.content(it, st)
        return c

    def unrollable(self, c):
        if c.op in ('tuple', 'list') and len(c.args) <= 8 and not any(x.op == 'star' for x in c.args):
            return list(c.args)
        if c.op == 'call':
            k, nm, a, kw = T.call_parts(c)
            if k == 'ext' and nm == 'builtins.zip' and a and not kw:
                ss = [self.unrollable(x) for x in a]
                if all(x is not None for x in ss):
                    return [mk('tuple', *t) for t in zip(*ss)]
            if k == 'ext' and nm == 'builtins.enumerate' and len(a) == 1:
                x = self.unrollable(a[0])
                if x is not None:
                    return [mk('tuple', const(i), v) for i, v in enumerate(x)]
            if k == 'ext' and nm == 'builtins.range' and all(T.is_const(x) and isinstance(x.args[1], int) for x in a) and a:
                r = range(*[x.args[1] for x in a])
                if len(r) <= 4:
                    return [const(i) for i in r]
            if k == 'ext' and nm in ('builtins.reversed',) and len(a) == 1:
                x = self.unrollable(a[0])
                if x is not None:
                    return x[::-1]
            if k == 'meth' and nm == 'items' and a[0].op == 'dict':
                return [mk('tuple', kk, v) for kk, v in a[0].args] if len(a[0].args) <= 30 and all(isinstance(z, tuple) for z in a[0].args) else None
            if k == 'meth' and nm in ('values', 'keys') and a[0].op == 'dict' and len(a[0].args) <= 30:
                return [kv[1 if nm == 'values' else 0] for kv in a[0].args]
        return None

    def unroll(self, s, seq, st):
        fr = self.stack[-1]
        lp = Loop(self.site(s), st.pc)
        base, parent = st.pc, st.events
        fr.loops.append(lp)
        chain = self.chain
        for i, x in enumerate(seq):
            if st is None:
                break
            self.chain = chain + (('u', i),)
            lp.cont = []
            self.assign(s.target, x, st, s)
            st = self.block(s.body, st)
            if lp.cont:
                st = self.merge_list(lp.cont + [st], base, parent)
        self.chain = chain
        fr.loops.pop()
        if st is not None and s.orelse:
            st = self.block(s.orelse, st)
        if lp.brk:
            st = self.merge_list(lp.brk + [st], base, parent)
        return st

    def bind_iter(self, target, itc, lid, st, s):
        """Bind the loop target for a generic iteration."""
        v = self.iter_elem(itc, lid)
        self.assign(target, v, st, s)

    def range_elem(self, lid, a):
        """Element of range(*a), written over the iteration counter when the step is +-1."""
        if len(a) == 1:
            return mk('idx', lid, T.ZERO, a[0], T.ONE)
        step = a[2] if len(a) == 3 else T.ONE
        if step is T.ONE:
            return T.t_bin('add', a[0], mk('idx', lid, T.ZERO, T.t_bin('sub', a[1], a[0]), T.ONE)) if a[0] is not T.ZERO else mk('idx', lid, T.ZERO, a[1], T.ONE)
        if T.is_const(step) and step.args[1] == -1:
            return T.t_bin('sub', a[0], mk('idx', lid, T.ZERO, T.t_bin('sub', a[0], a[1]), T.ONE))
        i = T.t_bin('mul', step, mk('idx', lid, T.ZERO, T.steps_of(a[0], a[1], step), T.ONE))
        return i if T.is_const(a[0], 0) else T.t_bin('add', a[0], i)

    def iter_elem(self, c, lid):
        if c.op == 'call':
            k, nm, a, kw = T.call_parts(c)
            if k == 'ext' and nm == 'builtins.range':
                if len(a) in (1, 2, 3):
                    return self.range_elem(lid, a)
            if k == 'ext' and nm == 'builtins.enumerate' and a:
                start = a[1] if len(a) > 1 else kw.get('start', T.ZERO)
                i = mk('idx', lid, T.ZERO, mk('call', mk('ext', 'builtins.len'), mk('tuple', a[0]), mk('kwargs')), T.ONE)
                if start is not T.ZERO:
                    i = T.t_bin('add', i, start)
                return mk('tuple', i, self.iter_elem(a[0], lid))
            if k == 'ext' and nm == 'builtins.zip':
                return mk('tuple', *[self.iter_elem(x, lid) for x in a])
            if k == 'ext' and nm in ('builtins.reversed', 'builtins.list', 'builtins.tuple', 'tqdm.tqdm', 'tqdm.trange', 'builtins.iter'):
                if nm == 'tqdm.trange':
                    return mk('idx', lid, T.ZERO, a[0], T.ONE)
                if nm == 'builtins.reversed':
                    b = a[0]
                    if b.op == 'call':
                        k2, nm2, a2, kw2 = T.call_parts(b)
                        if k2 == 'ext' and nm2 == 'builtins.range' and len(a2) == 1:
                            return self.range_elem(lid, [T.t_bin('sub', a2[0], T.ONE), const(-1), const(-1)])
                        if k2 == 'ext' and nm2 == 'builtins.range' and len(a2) == 2:
                            return self.range_elem(lid, [T.t_bin('sub', a2[1], T.ONE), T.t_bin('sub', a2[0], T.ONE), const(-1)])
                    return mk('elem', mk('rev', b), lid)
                return self.iter_elem(a[0], lid)
        if c.op == 'map':
            return mk('elem', c, lid)
        return mk('elem', c, lid)

    def _snap(self, st):
        d = {}
        for i, f in enumerate(st.frames):
            for k, v in f.items():
                d[('env', i, k)] = v
        for k, v in st.heap.items():
            d[('heap', k)] = v
        for k, v in st.over.items():
            d[('over', k)] = v
        for k, v in st.epoch.items():
            d[('epoch', k)] = v
        return d

    def _put(self, st, key, v):
        if key[0] == 'env':
            st.frames[key[1]][key[2]] = v
        elif key[0] == 'heap':
            st.heap[key[1]] = v
        elif key[0] == 'over':
            st.over[key[1]] = v
        elif key[0] == 'epoch':
            st.epoch[key[1]] = v

    def loop(self, s, st, itc):
        """Summarise a for (itc given) or while loop."""
        lid = mk('loopid', self.site(s))
        fr = self.stack[-1]
        parent, base = st.events, st.pc
        entry0 = self._snap(st)
        changed = {}
        saved_exits = len(fr.exits)
        n_unknown = len(self.unknown)
        for rnd in range(7):
            body = st.copy()
            for k in changed:
                self._put(body, k, ('L', lid.id, rnd >= 0) if k[0] == 'epoch' else self._lv(lid, k))
            evs, head = [], []
            body.events = head
            del fr.exits[saved_exits:]
            lp = Loop(lid, base)
            fr.loops.append(lp)
            cond = None
            if itc is None:
                cond = self.val(s.test, body)
                tv = self.truth(cond, body)
                if tv is None:
                    body.pc = body.pc + (cond,)
            else:
                self.bind_iter(s.target, itc, lid, body, s)
            ib = body.pc
            start = self._snap(body)
            body.events = evs
            end = self.block(s.body, body)
            fr.loops.pop()
            # continue exits join the end of body
            end = self.merge_list(lp.cont + ([end] if end is not None else []), ib, evs)
            new = False
            if end is not None:
                es = self._snap(end)
                for k, v in es.items():
                    if k in changed or k[0] == 'env' and k[1] >= len(st.frames):
                        continue
                    if k in entry0:
                        if v is not entry0[k] and v != entry0[k]:
                            changed[k] = entry0[k]
                            new = True
                    elif k[0] == 'heap':
                        dflt = mk('attr', k[1][0], k[1][1])
                        if v is not dflt:
                            changed[k] = dflt
                            new = True
                    elif k[0] == 'over' and k[1].op != 'obj':
                        if v is not k[1]:
                            changed[k] = k[1]
                            new = True
                    elif k[0] == 'epoch':
                        changed[k] = 0
                        new = True
                    elif k[0] == 'env' and not self._is_target(s, k):
                        pass
            if not new:
                break
        ev = self.emit(st, 'loop', s, lid=lid, iter=itc, cond=cond)
        ev.kids = [head, evs]
        self.LOOPS[lid] = dict(iter=itc, cond=cond, file=fr.module.rel, func=fr.qual, line=s.lineno, event=ev, changed=changed)
        out = st.copy()
        out.events = parent
        es = self._snap(end) if end is not None else {}
        subs = {}
        for k, init in changed.items():
            if k[0] == 'epoch':
                out.epoch[k[1]] = ('loop', lid.id)
                continue
            lv = self._lv(lid, k)
            step = es.get(k, lv)
            stepc = self.content(step, end) if end is not None else step
            self.LV[(lid, lv)] = (self.content(init, st), stepc)
            res = self.close(lid, lv, self.content(init, st), stepc, itc)
            if k[0] == 'env':
                res = self.wrap(res, s, out) if res.op not in ('elem',) else res
                if res.op == 'obj':
                    o = mk('obj', ('loopout', lid.id, k[2]))
                    out.over[o] = out.over.pop(res)
                    res = o
            self._put(out, k, res)
        # variables first defined in the body
        if end is not None:
            for i, f in enumerate(end.frames[:len(out.frames)]):
                for k, v in f.items():
                    if k not in out.frames[i]:
                        out.frames[i][k] = mk('lastval', lid, self.content(v, end))
            for k, v in end.over.items():
                if k not in out.over and k.op == 'obj':
                    out.over[k] = v
            for k, v in end.heap.items():
                if k not in out.heap:
                    out.heap[k] = v
        # breaks
        if lp.brk:
            bs = []
            for b in lp.brk:
                b2 = b.copy()
                b2.frames = b2.frames[:len(out.frames)]
                b2.pc = base + (mk('exists', lid, t_and(b.pc[len(base):])),)
                bs.append(b2)
            if s.orelse:
                out.pc = base + tuple(T.t_not(b.pc[-1]) for b in bs)
                out = self.block(s.orelse, out)
            out = self.merge_list(bs + ([out] if out is not None else []), base, parent)
            if out is not None:
                out.pc = base
        elif s.orelse:
            out = self.block(s.orelse, out)
        # returns from inside the loop: existentially quantified guard
        for i in range(saved_exits, len(fr.exits)):
            kind, s2, v, lids = fr.exits[i]
            if lid in lids:
                s2.pc = base + (mk('exists', lid, t_and(s2.pc[len(base):])),)
        if itc is None and T.is_const(cond) and cond.args[1] and not lp.brk:
            return None
        return out

    def s_While(self, s, st):
        c = self.counter_loop(s)
        if c is None or c[0] not in st.env:
            return self.loop(s, st, None)
        # while i < n: body; i += 1   is   for i in range(i, n): body
        name, bound, by = c
        f = ast.copy_location(ast.For(target=ast.copy_location(ast.Name(name, ast.Store()), s), iter=bound, body=s.body[:-1] or [ast.copy_location(ast.Pass(), s)], orelse=s.orelse), s)
        init, n = self.content(st.env[name], st), self.val(bound, st)
        itc = mk('call', mk('ext', 'builtins.range'), mk('tuple', n) if init is T.ZERO and by == 1 else mk('tuple', init, n) if by == 1 else mk('tuple', init, n, const(by)), mk('kwargs'))
        out = self.loop(f, st, itc)
        if out is not None:
            out.env[name] = mk('opaque', 'final value of a counter')
        return out

    @staticmethod
    def counter_loop(s):
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and s.body):
            return None
        i, n = (t.left, t.comparators[0]) if isinstance(t.ops[0], (ast.Lt, ast.LtE)) else (t.comparators[0], t.left)
        if not isinstance(t.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) or not isinstance(i, ast.Name):
            return None
        if isinstance(t.ops[0], (ast.LtE, ast.GtE)):
            n = ast.copy_location(ast.BinOp(n, ast.Add(), ast.copy_location(ast.Constant(1), n)), n)
        e = s.body[-1]
        one = lambda x: isinstance(x, ast.Constant) and type(x.value) is int and x.value > 0
        inc = isinstance(e, ast.AugAssign) and isinstance(e.op, ast.Add) and isinstance(e.target, ast.Name) and e.target.id == i.id and one(e.value) or \
            isinstance(e, ast.Assign) and len(e.targets) == 1 and isinstance(e.targets[0], ast.Name) and e.targets[0].id == i.id and isinstance(e.value, ast.BinOp) and \
            isinstance(e.value.op, ast.Add) and isinstance(e.value.left, ast.Name) and e.value.left.id == i.id and one(e.value.right)
        if not inc:
            return None
        written = set()
        for b in s.body[:-1]:
            for x in ast.walk(b):
                if isinstance(x, ast.Continue):
                    return None
                if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Store):
                    written.add(x.id if isinstance(x, ast.Name) else x.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'pop', 'remove', 'extend', 'insert', 'clear') and isinstance(x.func.value, (ast.Name, ast.Attribute)):
                    written.add(x.func.value.id if isinstance(x.func.value, ast.Name) else x.func.value.attr)
        if i.id in written:
            return None
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and (x.id in written or x.id == i.id) or isinstance(x, ast.Attribute) and x.attr in written:
                return None
            if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ('len', 'int', 'max', 'min')):
                return None
        return i.id, n, (e.value if isinstance(e, ast.AugAssign) else e.value.right).value

    def _is_target(self, s, k):
        return False

    def _lv(self, lid, k):
        key = k[2] if k[0] == 'env' else ('%s.%s' % (T.show(k[1][0]), k[1][1]) if k[0] == 'heap' else T.show(k[1]))
        return mk('lv', lid, k[0], key if k[0] == 'env' else k[1])

    def close(self, lid, lv, init, step, itc):
        """Closed forms of common recurrences."""
        if step is lv:
            return init
        tgt = lv
        if step.op == 'append' and step.args[0] is tgt and not T.depends(step.args[1], tgt):
            m = mk('map', lid, step.args[1], TRUE, itc if itc is not None else NONE)
            if init.op == 'list' and not init.args:
                return m
            return mk('cat', init, m)
        if step.op == 'phi' and itc is not None:
            c, a, b = step.args
            if a.op == 'append' and a.args[0] is tgt and b is tgt and not T.depends(mk('tuple', c, a.args[1]), tgt):
                m = mk('map', lid, a.args[1], c, itc)
                return m if init.op == 'list' and not init.args else mk('cat', init, m)
            if b.op == 'append' and b.args[0] is tgt and a is tgt and not T.depends(mk('tuple', c, b.args[1]), tgt):
                m = mk('map', lid, b.args[1], T.t_not(c), itc)
                return m if init.op == 'list' and not init.args else mk('cat', init, m)
        if step.op == 'upd' and step.args[0] is tgt and not T.depends(mk('tuple', step.args[1], step.args[2]), tgt) and itc is not None:
            return mk('fillmap', lid, init, step.args[1], step.args[2], itc)
        if step.op in ('add', 'sub') and step.args[0] is tgt and not T.depends(step.args[1], tgt) and itc is not None:
            return T.t_bin(step.op, init, mk('lsum', lid, step.args[1], itc))
        return mk('loop', lid, lv, init, step)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.unknown.append(type(e).__name__)
            return mk('opaque', self.site(e))
        return m(e, st)

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        fr = self.stack[-1]
        if e.id not in fr.globals:
            v = st.env.get(e.id)
            if v is not None:
                return v
            # enclosing frames of a closure
            up = getattr(fr, 'enclosing', None)
            if up is not None:
                idx, fid, snap = up
                if idx < len(st.frames) - 1 and getattr(fr, 'enc_live', False) and e.id in st.frames[idx]:
                    return st.frames[idx][e.id]
                if e.id in snap:
                    return snap[e.id]
        return self.global_name(e.id, fr.module, fr.cls)

    def global_name(self, name, module, cls=None):
        r = self.prog.lookup(module, name)
        return self._glob(r, name)

    def _glob(self, r, name):
        if r is None:
            return mk('ext', 'builtins.' + name)
        if isinstance(r, Class):
            return mk('cls', r.qual)
        if isinstance(r, Func):
            return mk('func', r.module.name, r.name)
        if r[0] == 'mod':
            return mk('module', r[1])
        if r[0] == 'ext':
            return mk('ext', r[1])
        if r[0] == 'assign':
            v = r[2]
            if isinstance(v, ast.Constant):
                return const(v.value)
            if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub) and isinstance(v.operand, ast.Constant):
                return const(-v.operand.value)
            # a constant of a library, named in the module
            c, names = v, []
            while isinstance(c, (ast.Attribute, ast.Call)):
                if isinstance(c, ast.Call):
                    if c.keywords or len(c.args) > 1 or not all(isinstance(x, (ast.Attribute, ast.Constant)) for x in c.args):
                        break
                    c = c.func
                else:
                    c = c.value
            if isinstance(c, ast.Name) and isinstance(v, ast.Attribute) and isinstance(self.prog.lookup(r[1], c.id), tuple) and self.prog.lookup(r[1], c.id)[0] in ('mod', 'ext') and (r[1].name, name) not in self.rebound():
                return self.lib_const(v, r[1])
            return mk('global', r[1].name, name)
        return mk('ext', 'builtins.' + name)

    def rebound(self):
        """Module-level names some function rebinds."""
        if not hasattr(self.prog, '_rebound'):
            self.prog._rebound = {(m.name, x) for m in self.prog.modules.values() for g in ast.walk(m.tree) if isinstance(g, ast.Global) for x in g.names}
        return self.prog._rebound

    def lib_const(self, e, module):
        if isinstance(e, ast.Constant):
            return const(e.value)
        if isinstance(e, ast.Name):
            return self.global_name(e.id, module)
        if isinstance(e, ast.Attribute):
            b = self.lib_const(e.value, module)
            if b.op in ('module', 'ext'):
                return mk('ext', b.args[0] + '.' + e.attr)
            return mk('attr', b, e.attr)
        return mk('call', self.lib_const(e.func, module), mk('tuple', *[self.lib_const(x, module) for x in e.args]), mk('kwargs'))

    def e_Attribute(self, e, st):
        b = self.ev(e.value, st)
        return self.get_attr(b, e.attr, st, e)

    def get_attr(self, b, name, st, node):
        sb = self.shallow(b, st)
        if sb.op == 'phi':
            return T.t_phi(sb.args[0], self.get_attr(sb.args[1], name, st, node), self.get_attr(sb.args[2], name, st, node))
        if sb.op == 'module':
            return self.mod_attr(sb.args[0], name)
        if sb.op == 'ext':
            return mk('ext', sb.args[0] + '.' + name)
        if sb.op == 'super':
            return mk('supermeth', sb.args[0], sb.args[1], name)
        if (sb, name) in st.heap:
            return st.heap[(sb, name)]
        if sb.op == 'cls':
            c = self.prog.classes.get(sb.args[0])
            if c:
                f = self.prog.find(c, name)
                if f:
                    return mk('clsmeth', sb.args[0], name)
                a = self.prog.find_attr(c, name)
                if a:
                    return self.class_attr(a, st)
                if name in c.inner:
                    return mk('cls', c.inner[name].qual)
            return mk('attr', sb, name)
        cls = self.typeof(sb)
        if cls is not None:
            f = self.prog.find(cls, name)
            if f is not None:
                if f.kind == 'property':
                    if self.policy.want(f, sb, self) and self._can_inline(f):
                        return self.call_func(f, [], {}, sb, st, node)
                    ep = st.epoch.get(sb, 0)
                    return mk('attr', sb, name) if not ep else mk('attr', sb, name, ep)
                return mk('bound', sb, name)
            a = self.prog.find_attr(cls, name)
            if a is not None and not self.instance_assigned(cls, name):
                return self.class_attr(a, st)
            d = self.dispatch(cls, name)
            if d and sb.op == 'self':
                r = mk('bound', sb, d[-1])
                for m in d[:-1]:
                    r = T.t_phi(mk('sym', 'dispatch:%s=%s' % (name, m)), mk('bound', sb, m), r)
                return r
        ep = st.epoch.get(sb, 0)
        if sb.op == 'obj' or sb.op in ('list', 'dict', 'tuple', 'upd', 'append', 'map'):
            sb = self.content(sb, st)
        else:
            sb = self.content(sb, st)
        return mk('attr', sb, name) if not ep else mk('attr', sb, name, ep)

    def dispatch(self, cls, name):
        """Methods an attribute can be bound to, if it only ever holds bound methods of self."""
        k = ('dp', cls.qual, name)
        if k not in self._attr_types:
            out, ok = [], True
            for c in self.prog.mro(cls):
                if not isinstance(c, Class):
                    continue
                for f in list(c.methods.values()) + list(c.setters.values()):
                    for x in ast.walk(f.node):
                        if not isinstance(x, ast.Assign):
                            continue
                        for t in x.targets:
                            if isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == 'self':
                                vs = [x.value.body, x.value.orelse] if isinstance(x.value, ast.IfExp) else [x.value]
                                for v in vs:
                                    g = self.prog.find(cls, v.attr) if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == 'self' else None
                                    if g is None or g.kind != 'method':
                                        ok = False
                                    else:
                                        out.append(v.attr)
            self._attr_types[k] = sorted(set(out)) if ok and out else None
        return self._attr_types[k]

    def instance_assigned(self, cls, name):
        k = ('ia', cls.qual, name)
        if k not in self._attr_types:
            r = False
            for c in self.prog.mro(cls):
                if isinstance(c, Class):
                    for f in list(c.methods.values()) + list(c.setters.values()):
                        for x in ast.walk(f.node):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == name:
                                r = True
            self._attr_types[k] = r
        return self._attr_types[k]

    def class_attr(self, a, st):
        c, v = a
        if isinstance(v, ast.Constant):
            return const(v.value)
        if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub) and isinstance(v.operand, ast.Constant):
            return const(-v.operand.value)
        return mk('attr', mk('cls', c.qual), ast.unparse(v)[:60])

    def mod_attr(self, mod, name):
        if mod in self.prog.modules:
            r = self.prog.lookup(self.prog.modules[mod], name)
            if r is not None:
                return self._glob(r, name)
            if mod + '.' + name in self.prog.modules:
                return mk('module', mod + '.' + name)
        return mk('ext', mod + '.' + name)

    def key(self, s, st):
        if isinstance(s, ast.Slice):
            f = lambda x: self.val(x, st) if x is not None else NONE
            return T.t_slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return mk('tuple', *[self.key(x, st) for x in s.elts])
        if isinstance(s, ast.Index):
            return self.key(s.value, st)
        return self.val(s, st)

    e_Slice = lambda self, e, st: self.key(e, st)

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        k = self.key(e.slice, st)
        return self.subscript(b, k, st, e)

    def subscript(self, b, k, st, e, d=0):
        if b.op == 'phi' and b not in st.over and d < 6:
            return T.t_phi(b.args[0], self.subscript(b.args[1], k, st, e, d + 1), self.subscript(b.args[2], k, st, e, d + 1))
        sb = self.shallow(b, st)
        if sb.op in ('tuple', 'list', 'dict', 'phi'):
            return self.index(sb, k, st, ident=True)
        cls = self.typeof(sb)
        if cls is not None:
            f = self.prog.find(cls, '__getitem__')
            if f is not None:
                if self.policy.want(f, sb, self) and self._can_inline(f):
                    return self.call_func(f, [k], {}, sb, st, e)
                w = self.written(sb, st.over.get(b, st.over.get(sb, sb)), k, lambda: self.opaque_meth(sb, '__getitem__', [k], {}, st, e, func=f))
                return w if w is not None else self.opaque_meth(sb, '__getitem__', [k], {}, st, e, func=f)
        return self.index(self.content(b, st), k, st)

    def written(self, sb, c, k, read, d=0):
        """What an entry holds after it was written under the same key (None: not known to be written)."""
        if c.op == 'upd' and c.args[1] is k:
            return c.args[2]
        if c.op == 'phi' and d < 6:
            x, y = [z if z is sb else self.written(sb, z, k, read, d + 1) for z in c.args[1:]]
            if x is None or y is None or x is sb and y is sb:
                return None
            return T.t_phi(c.args[0], read() if x is sb else x, read() if y is sb else y)
        return None

    def index(self, b, k, st, ident=False, memo=None):
        if b.op in ('tuple', 'list') and T.is_const(k) and isinstance(k.args[1], int):
            if not any(x.op == 'star' for x in b.args) and -len(b.args) <= k.args[1] < len(b.args):
                return b.args[k.args[1]]
        if b.op in ('tuple', 'list') and k.op == 'slice' and all(x is NONE or T.is_const(x) for x in k.args) and not any(x.op == 'star' for x in b.args):
            sl = slice(*[x.args[1] for x in k.args])
            return mk(b.op, *b.args[sl])
        if b.op == 'dict':
            for kk, v in b.args:
                if kk is k:
                    return v
        if b.op == 'phi':
            memo = {} if memo is None else memo
            if b.id not in memo:
                if len(memo) > 60:
                    memo[b.id] = mk('index', b, k)
                else:
                    memo[b.id] = T.t_phi(b.args[0], self.index(self.shallow_obj(b.args[1], st), k, st, memo=memo),
                                         self.index(self.shallow_obj(b.args[2], st), k, st, memo=memo))
            return memo[b.id]
        if k.op == 'idx' and k.args[1] is T.ZERO and k.args[3] is T.ONE:
            if b.op == 'map' and b.args[2] is TRUE:
                pass
            return mk('elem', b, k.args[0])
        if b.op == 'upd' and b.args[1] is k and st is not None:
            return b.args[2]
        if b.op == 'upd' and T.is_const(k) and T.is_const(b.args[1]) and k is not b.args[1] and k.args[0] == b.args[1].args[0] == 'str':
            return self.index(b.args[0], k, st)
        if b.op == 'elem' and b.args[0].op == 'map':
            pass
        if b.op == 'lastval' and False:
            pass
        return mk('index', b, k)

    def e_Tuple(self, e, st):
        return mk('tuple', *self._elts(e.elts, st))

    def e_List(self, e, st):
        return mk('list', *self._elts(e.elts, st))

    def e_Set(self, e, st):
        return mk('set', *[self.content(x, st) for x in self._elts(e.elts, st)])

    def _elts(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                sv = self.shallow(v, st)
                if sv.op in ('tuple', 'list') and not any(y.op == 'star' for y in sv.args):
                    out.extend(sv.args)
                else:
                    out.append(mk('star', self.content(v, st)))
            else:
                out.append(self.rvalue(x, st))
        return out

    def e_Dict(self, e, st):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.content(self.ev(v, st), st)
                if x.op == 'dict':
                    for kk, vv in x.args:
                        items = [i for i in items if i[0] is not kk] + [(kk, vv)]
                else:
                    items.append((mk('star'), x))
            else:
                items.append((self.val(k, st), self.rvalue(v, st)))
        return mk('dict', *items)

    def e_BinOp(self, e, st):
        a, b = self.val(e.left, st), self.val(e.right, st)
        op = BINOP.get(type(e.op), 'op')
        if op == 'mod' and a.op == 'const' and a.args[0] == 'str':
            return mk('strfmt', a, b)
        if op == 'add' and a.op in ('map', 'cat') and b.op in ('list', 'map', 'cat'):
            return mk('cat', a, b)
        return T.t_bin(op, a, b)

    def e_UnaryOp(self, e, st):
        a = self.val(e.operand, st)
        if isinstance(e.op, ast.Not):
            return T.t_not(a)
        if isinstance(e.op, ast.USub):
            return const(-a.args[1]) if T.is_num(a) else mk('neg', a)
        if isinstance(e.op, ast.Invert):
            return mk('inv', a) if a.op not in ('not', 'lt', 'le') else T.t_not(a)
        return a

    def e_BoolOp(self, e, st):
        op = 'and' if isinstance(e.op, ast.And) else 'or'
        vals = [self.val(e.values[0], st)]
        base = st.pc
        for x in e.values[1:]:
            # short circuit: calls on the right are evaluated under a guard
            g = vals[-1] if op == 'and' else T.t_not(vals[-1])
            tv = self.truth(g, st)
            if tv is False:
                break
            if tv is None:
                st.pc = st.pc + (g,)
            vals.append(self.val(x, st))
        st.pc = base
        vs = vals
        # `x or default` on non-boolean values: keep as a selection
        if op == 'or' and len(vs) == 2 and not T.is_bool(vs[0]) and vs[0].op in ('param', 'attr', 'call'):
            return mk('or', *vs)
        out = []
        for v in vs:
            tv = self.truth(v, st) if v.op in ('list', 'tuple', 'new', 'self', 'func', 'closure') else None
            out.append(v)
        return T.t_bool(op, out)

    def e_Compare(self, e, st):
        l = self.val(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            r = self.val(r, st)
            out.append(self.compare(CMP[type(op)], l, r, st))
            l = r
        return out[0] if len(out) == 1 else T.t_bool('and', out)

    def compare(self, op, l, r, st):
        if op in ('in', 'notin') and r.op in ('tuple', 'list', 'set') and T.is_const(l) and all(T.is_const(x) for x in r.args):
            v = l in r.args
            return const(v if op == 'in' else not v)
        if op in ('in', 'notin') and r.op == 'dict' and T.is_const(l) and all(T.is_const(k) for k, _ in r.args):
            v = any(k is l for k, _ in r.args)
            return const(v if op == 'in' else not v)
        if l.op == 'phi' and T.is_const(r) and T.is_const(l.args[1]) and T.is_const(l.args[2]):
            return T.t_phi(l.args[0], T.t_cmp(op, l.args[1], r), T.t_cmp(op, l.args[2], r))
        return T.t_cmp(op, l, r)

    def e_IfExp(self, e, st):
        c = self.val(e.test, st)
        tv = self.truth(c, st)
        if tv is True:
            return self.ev(e.body, st)
        if tv is False:
            return self.ev(e.orelse, st)
        base, parent = st.pc, st.events
        a, b = st.copy(), st.copy()
        ea, eb = [], []
        a.events, b.events = ea, eb
        a.pc, b.pc = base + (c,), base + (T.t_not(c),)
        va, vb = self.rvalue(e.body, a), self.rvalue(e.orelse, b)
        if ea or eb:
            ev = self.emit(st, 'if', e, cond=c)
            ev.kids = [ea, eb]
        m = self.merge(c, a, b, base, parent)
        self._adopt(st, m)
        return T.t_phi(c, va, vb)

    def _adopt(self, st, m):
        st.frames, st.heap, st.over, st.epoch = m.frames, m.heap, m.over, m.epoch

    def e_NamedExpr(self, e, st):
        v = self.rvalue(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_Lambda(self, e, st):
        return self.closure(e, st)

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.val(v.value, st))
            else:
                parts.append(const(v.value))
        if all(T.is_const(p) and isinstance(p.args[1], str) for p in parts):
            return const(''.join(p.args[1] for p in parts))
        return mk('fstr', *parts)

    def e_FormattedValue(self, e, st):
        return self.val(e.value, st)

    def e_Starred(self, e, st):
        return mk('star', self.val(e.value, st))

    def e_Yield(self, e, st):
        v = self.val(e.value, st) if e.value is not None else NONE
        self.emit(st, 'yield', e, value=v)
        return mk('yieldval', self.site(e))

    def e_YieldFrom(self, e, st):
        v = self.val(e.value, st)
        self.emit(st, 'yield', e, value=mk('star', v))
        return mk('yieldval', self.site(e))

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    # comprehension: a loop with an anonymous body
    def comp(self, e, gens, st, leaf):
        if not gens:
            return leaf(st)
        g = gens[0]
        itc = self.iter_content(self.ev(g.iter, st), st)
        seq = self.unrollable(itc)
        if seq is not None and not g.ifs:
            out = []
            chain = self.chain
            saved = dict(st.env)
            for i, x in enumerate(seq):
                self.chain = chain + (('u', i),)
                self.assign(g.target, x, st, e)
                out.append(self.comp(e, gens[1:], st, leaf))
            self.chain = chain
            st.frames[-1] = saved
            if len(gens) > 1:
                if all(o.op == 'list' for o in out):
                    return mk('list', *[y for o in out for y in o.args])
                return mk('cat', *out)
            return mk('list', *out)
        lid = mk('loopid', self.site(g.target))
        parent = st.events
        saved = dict(st.env)
        evs = []
        st.events = evs
        base = st.pc
        self.bind_iter(g.target, itc, lid, st, e)
        cond = TRUE
        for c in g.ifs:
            cc = self.val(c, st)
            cond = T.t_bool('and', [cond, cc])
            st.pc = st.pc + (cc,)
        v = self.content(self.comp(e, gens[1:], st, leaf), st)
        st.pc = base
        st.events = parent
        st.frames[-1] = saved
        if evs:
            ev = self.emit(st, 'loop', e, lid=lid, iter=itc, cond=None)
            ev.kids = [[], evs]
        self.LOOPS[lid] = dict(iter=itc, cond=None, file=self.stack[-1].module.rel, func=self.stack[-1].qual, line=e.lineno)
        if len(gens) > 1:
            v = mk('flat', v)
        return mk('map', lid, v, cond, itc)

    def e_ListComp(self, e, st):
        return self.comp(e, e.generators, st, lambda s: self.rvalue(e.elt, s))

    e_GeneratorExp = e_SetComp = e_ListComp

    def e_DictComp(self, e, st):
        r = self.comp(e, e.generators, st, lambda s: mk('tuple', self.val(e.key, s), self.rvalue(e.value, s)))
        if r.op == 'list':
            return mk('dict', *[(x.args[0], x.args[1]) for x in r.args])
        return mk('dictmap', r)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in st.env:
            fr = self.stack[-1]
            if len(e.args) == 2:
                c = self.ev(e.args[0], st)
                o = self.ev(e.args[1], st)
                return mk('super', o, c.args[0] if c.op == 'cls' else None)
            return mk('super', fr.selfn, fr.cls.qual if fr.cls else None)
        # method call on receiver
        if isinstance(e.func, ast.Attribute):
            recv = self.ev(e.func.value, st)
            args, kw = self.args(e, st)
            return self.call_attr(recv, e.func.attr, args, kw, st, e)
        fn = self.ev(e.func, st)
        args, kw = self.args(e, st)
        return self.call(fn, args, kw, st, e)

    def args(self, e, st):
        args = self._elts(e.args, st)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, st)
                sv = self.shallow(v, st)
                if sv.op == 'dict' and all(isinstance(kk, N) and T.is_const(kk) for kk, _ in sv.args):
                    for kk, vv in sv.args:
                        kw[kk.args[1]] = vv
                else:
                    kw['**'] = self.content(v, st)
            else:
                kw[k.arg] = self.rvalue(k.value, st)
        return args, kw

    def call_attr(self, recv, name, args, kw, st, e):
        sr = self.shallow(recv, st)
        if sr.op == 'super':
            return self.call_super(sr, name, args, kw, st, e)
        if name == '__new__' and sr.op == 'cls' and len(args) == 1 and self.shallow(args[0], st).op == 'cls' and self.prog.find(self.prog.classes[sr.args[0]], '__new__') is None:
            # an instance whose constructor does not run
            n = mk('new', self.shallow(args[0], st).args[0], self.site(e))
            self.NEW[n] = None
            return n
        if sr.op == 'module' or sr.op == 'ext' or sr.op == 'cls' or (sr, name) in st.heap:
            fn = self.get_attr(recv, name, st, e)
            return self.call(fn, args, kw, st, e)
        if sr.op == 'phi' and sr.args[1].op in ('self', 'new', 'attr', 'obj', 'phi') and self._objlike(sr, st):
            c = sr.args[0]
            base, parent = st.pc, st.events
            a, b = st.copy(), st.copy()
            ea, eb = [], []
            a.events, b.events = ea, eb
            a.pc, b.pc = base + (c,), base + (T.t_not(c),)
            va = self.call_attr(sr.args[1], name, args, kw, a, e)
            vb = self.call_attr(sr.args[2], name, args, kw, b, e)
            ev = self.emit(st, 'if', e, cond=c)
            ev.kids = [ea, eb]
            self._adopt(st, self.merge(c, a, b, base, parent))
            return T.t_phi(c, va, vb)
        cls = self.typeof(sr)
        if cls is not None:
            f = self.prog.find(cls, name)
            if f is not None and f.kind != 'property':
                if self.policy.want(f, sr, self) and self._can_inline(f):
                    return self.call_func(f, args, kw, sr, st, e)
                return self.opaque_meth(sr, name, args, kw, st, e, func=f)
            if f is not None:
                fn = self.get_attr(recv, name, st, e)
                return self.call(fn, args, kw, st, e)
            if self.instance_assigned(cls, name):
                return self.call(self.get_attr(recv, name, st, e), args, kw, st, e)
        # a method resolved by name through the policy
        return self.opaque_meth(recv, name, args, kw, st, e)

    def _objlike(self, n, st, d=0):
        n = self.shallow_obj(n, st)
        if n.op == 'phi':
            return d < 6 and self._objlike(n.args[1], st, d + 1) and self._objlike(n.args[2], st, d + 1)
        return n.op in ('self', 'new') or self.typeof(n) is not None

    def call_super(self, sr, name, args, kw, st, e):
        selfn, after = sr.args
        cls = self.typeof(selfn) if selfn is not None else None
        aft = self.prog.classes.get(after) if after else None
        if cls is not None and aft is not None:
            f = self.prog.find(cls, name, after=aft)
            if f is not None:
                if name not in self.policy.opaque and self._can_inline(f):
                    return self.call_func(f, args, kw, selfn, st, e)
                return self.opaque_meth(selfn, name, args, kw, st, e, func=f)
        ca, ckw = self._contents(args, kw, st)
        n = self.callnode(mk('meth', mk('superobj', selfn if selfn is not None else NONE), name), ca, ckw)
        self.emit(st, 'call', e, name=name, recv=selfn, args=ca, kw=ckw, node=n, callee=None, ext='super', idents=args)
        return n

    def callnode(self, fn, args, kw, extra=None):
        a = (fn, mk('tuple', *args), mk('kwargs', *sorted(kw.items())))
        return mk('call', *(a + ((extra,) if extra else ())))

    def _can_inline(self, f):
        if len(self.stack) >= self.policy.max_depth:
            return False
        if f.node in self.active or sum(1 for x in self.stack if x.func is f) >= 1:
            return False
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
            return False
        return True

    def call(self, fn, args, kw, st, e):
        fn = self.shallow(fn, st)
        if fn.op == 'func':
            f = self.prog.module(fn.args[0]).functions[fn.args[1]]
            if self.policy.want(f, None, self) and self._can_inline(f):
                return self.call_func(f, args, kw, None, st, e)
            ca, ckw = self._contents(args, kw, st)
            n = self.callnode(mk('ext', f.module.name + '.' + f.name), ca, ckw)
            self.emit(st, 'call', e, name=f.name, recv=None, args=ca, kw=ckw, node=n, callee=f, idents=args)
            return n
        if fn.op == 'clsmeth':
            c = self.prog.classes[fn.args[0]]
            f = self.prog.find(c, fn.args[1])
            recv = None
            a = args
            if f.kind == 'class':
                recv = mk('cls', c.qual)
            elif f.kind == 'method':
                if args:
                    recv, a = self.shallow(args[0], st), args[1:]
            if (f.kind in ('static', 'class') or recv is not None) and self.policy.want(f, recv, self) and self._can_inline(f):
                return self.call_func(f, a, kw, recv, st, e)
            if f.kind == 'method' and recv is not None:
                return self.opaque_meth(recv, f.name, a, kw, st, e, func=f)
            ca, ckw = self._contents(args, kw, st)
            n = self.callnode(mk('ext', c.qual + '.' + f.name), ca, ckw)
            self.emit(st, 'call', e, name=f.name, recv=mk('cls', c.qual), args=ca, kw=ckw, node=n, callee=f, idents=args)
            return n
        if fn.op == 'supermeth':
            return self.call_super(mk('super', fn.args[0], fn.args[1]), fn.args[2], args, kw, st, e)
        if fn.op == 'bound':
            return self.call_attr(fn.args[0], fn.args[1], args, kw, st, e)
        if fn.op == 'closure':
            return self.call_closure(fn, args, kw, st, e)
        if fn.op == 'cls':
            return self.construct(self.prog.classes[fn.args[0]], args, kw, st, e)
        if fn.op == 'phi':
            c = fn.args[0]
            base, parent = st.pc, st.events
            a, b = st.copy(), st.copy()
            ea, eb = [], []
            a.events, b.events = ea, eb
            a.pc, b.pc = base + (c,), base + (T.t_not(c),)
            va = self.call(fn.args[1], args, kw, a, e)
            vb = self.call(fn.args[2], args, kw, b, e)
            ev = self.emit(st, 'if', e, cond=c)
            ev.kids = [ea, eb]
            self._adopt(st, self.merge(c, a, b, base, parent))
            return T.t_phi(c, va, vb)
        if fn.op == 'ext':
            return self.call_ext(fn.args[0], args, kw, st, e)
        cls = self.typeof(fn)
        if cls is not None:
            f = self.prog.find(cls, '__call__')
            if f is not None and self.policy.want(f, fn, self) and self._can_inline(f):
                return self.call_func(f, args, kw, fn, st, e)
            return self.opaque_meth(fn, '__call__', args, kw, st, e, func=f)
        if fn.op == 'attr' and (not (fn.args[0].op in ('self', 'attr', 'param', 'new')) or fn.args[0].op in ('param', 'attr') and not isinstance(getattr(e, 'func', None), ast.Attribute)):
            return self.opaque_meth(fn.args[0], fn.args[1], args, kw, st, e)
        return self.opaque_meth(fn, '__call__', args, kw, st, e)

    def _contents(self, args, kw, st):
        return [self._argval(a, st) for a in args], {k: self._argval(v, st) for k, v in kw.items()}

    def _argval(self, a, st):
        c = self.content(a, st)
        return self.as_lambda(c, st) if c.op == 'closure' else c

    def as_lambda(self, fn, st):
        """A local function without side effects, passed as a value, is the function of its parameters it computes."""
        node = self.closures[fn.id][0]
        a = node.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.defaults or self.lamdepth > 2 or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal)) for x in ast.walk(node)):
            return fn
        if len(self.stack) >= self.policy.max_depth or any(x.node is node for x in self.stack):
            return fn
        sub = st.copy()
        sub.events = []
        ps = [mk('sym', 'lam%d.%d' % (self.lamdepth, i)) for i in range(len(a.posonlyargs + a.args))]
        self.lamdepth += 1
        try:
            v = self.content(self.call_closure(fn, ps, {}, sub, node), sub)
        finally:
            self.lamdepth -= 1
        if v.op == 'noreturn' or sub.heap != st.heap or sub.frames != st.frames:
            return fn
        for k, x in sub.over.items():
            if (k in st.over and st.over[k] is not x) or (k not in st.over and k.op != 'obj'):
                return fn
        return mk('lam', len(ps), v)

    def construct(self, cls, args, kw, st, e):
        n = mk('new', cls.qual, self.site(e))
        ca, ckw = self._contents(args, kw, st)
        self.NEW[n] = None if n in self.NEW and self.NEW[n] != (ca, ckw) else (ca, ckw)
        self.emit(st, 'new', e, cls=cls, args=ca, kw=ckw, node=n, idents=args)
        init = self.prog.find(cls, '__init__')
        if init is not None and self.policy.want_ctor(cls) and self._can_inline(init):
            self.opened.add(cls.qual)
            self.call_func(init, args, kw, n, st, e)
        return n

    def call_ext(self, nm, args, kw, st, e):
        if nm.startswith('tqdm.') and args:
            # progress bars iterate exactly what they wrap
            if nm.endswith('.trange'):
                return self.call_ext('builtins.range', args, {}, st, e)
            if nm.endswith('.tqdm'):
                return args[0]
        ca, ckw = self._contents(args, kw, st)
        base = nm.split('.')[-1]
        if nm.startswith('builtins.'):
            if base == 'len' and len(ca) == 1 and ca[0].op in ('tuple', 'list') and not any(x.op == 'star' for x in ca[0].args):
                return const(len(ca[0].args))
            if base in ('tuple', 'list') and len(ca) == 1 and ca[0].op in ('tuple', 'list'):
                return mk(base, *self.shallow(args[0], st).args) if self.shallow(args[0], st).op in ('tuple', 'list') else mk(base, *ca[0].args)
            if base in ('list', 'dict') and not ca and not ckw:
                return mk(base)
            if base == 'dict' and not ca and '**' not in ckw:
                return mk('dict', *[(const(k), v) for k, v in kw.items()])
            if base == 'dict' and len(ca) == 1 and ca[0].op == 'dict' and '**' not in ckw:
                return mk('dict', *(ca[0].args + tuple((const(k), v) for k, v in ckw.items())))
            if base == 'setattr' and len(ca) == 3 and T.is_const(ca[1]):
                self.set_attr(self.shallow(args[0], st), ca[1].args[1], args[2], st, e)
                return NONE
            if base == 'getattr' and len(ca) >= 2 and T.is_const(ca[1]) and isinstance(ca[1].args[1], str):
                return self.get_attr(args[0], ca[1].args[1], st, e)
            if base == 'bool' and len(ca) == 1 and T.is_bool(ca[0]):
                return ca[0]
            if base == 'sum' and len(ca) == 1 and ca[0].op == 'map' and ca[0].args[2] is TRUE:
                pass
            if base == 'isinstance' and len(ca) == 2 and ca[1].op == 'tuple' and ca[1].args:
                return T.t_bool('or', [self.call_ext(nm, [args[0], x], kw, st, e) for x in ca[1].args])
            if base == 'isinstance' and len(ca) == 2 and ca[1].op == 'ext' and ca[0].op in ('slice', 'list', 'tuple', 'dict', 'fstr'):
                ty = {'fstr': 'str'}.get(ca[0].op, ca[0].op)
                if ca[1].args[0] in ('numpy.ndarray', 'torch.Tensor', 'numbers.Number') or ca[1].args[0].startswith('builtins.'):
                    return const(ca[1].args[0] == 'builtins.' + ty)
            if base == 'isinstance' and len(ca) == 2 and ca[1].op == 'ext' and is_ndarray(ca[0]):
                if ca[1].args[0] in ('numpy.ndarray', 'torch.Tensor', 'numbers.Number') or ca[1].args[0].startswith('builtins.'):
                    return const(ca[1].args[0] == 'numpy.ndarray')
            if base == 'len' and len(ca) == 1:
                t = self.typeof(ca[0])
                f = self.prog.find(t, '__len__') if t is not None and ca[0].op in ('self', 'new', 'attr', 'param') else None
                if f is not None and self.policy.want(f, ca[0], self) and self._can_inline(f):
                    return self.call_func(f, [], {}, self.shallow(args[0], st), st, e)
            if base == 'isinstance' and len(ca) == 2:
                t = self.typeof(ca[0])
                if t is not None and ca[0].op in ('self', 'new') and ca[1].op == 'cls':
                    return const(self.prog.is_sub(t, ca[1].args[0]))
                if ca[0].op == 'const' and ca[1].op in ('cls',):
                    return FALSE
            if base in ('min', 'max') and len(ca) == 2 and T.is_num(ca[0]) and T.is_num(ca[1]):
                return const((min if base == 'min' else max)(ca[0].args[1], ca[1].args[1]))
        if nm in ('copy.deepcopy', 'copy.copy') and len(ca) == 1:
            c = self.shallow(args[0], st)
            cls = self.typeof(c)
            if cls is None and c.op == 'phi' and ca[0].op == 'phi':
                def dist(x):
                    if x.op == 'phi':
                        return T.t_phi(x.args[0], dist(x.args[1]), dist(x.args[2]))
                    return mk('copyof', x, nm == 'copy.deepcopy', self.site(e)) if x.op in ('attr', 'param', 'new', 'self') else x
                n = dist(ca[0])
                self.emit(st, 'call', e, name=base, recv=None, args=ca, kw=ckw, node=n, callee=None, ext=nm, idents=args)
                return n
            if cls is not None or c.op in ('attr', 'param'):
                n = mk('copyof', ca[0], nm == 'copy.deepcopy', self.site(e))
                if cls is not None:
                    self.TYPES[n.id] = cls
                self.emit(st, 'call', e, name=base, recv=None, args=ca, kw=ckw, node=n, callee=None, ext=nm, idents=args)
                return n
        extra = self.site(e) if nm.startswith(RANDOM_ROOTS) else None
        n = self.callnode(mk('ext', nm), ca, ckw, extra)
        if base == 'partial' and nm.startswith('functools') and ca:
            return n
        self.emit(st, 'call', e, name=base, recv=None, args=ca, kw=ckw, node=n, callee=None, ext=nm, idents=args)
        self.n_calls += 1
        if nm in INPLACE_FUNCS and args:
            self.emit(st, 'inplace', e, target=args[0], op=base, value=n, before=ca[0], new=n)
            self.mutate(args[0], lambda c: mk('mut', base, c, *ca[1:]), st, e)
        if 'out' in kw:
            self.emit(st, 'inplace', e, target=kw['out'], op=base, value=n, before=ckw['out'], new=n)
            self.mutate(kw['out'], lambda c: n, st, e)
        return n

    def is_backend(self, n):
        t = self.typeof(n)
        if t is not None:
            return any(c.name == 'ArrayBackend' for c in self.prog.mro(t))
        return n.op == 'attr' and n.args[1].lstrip('_') in ('array_backend', 'backend')

    def opaque_meth(self, recv, name, args, kw, st, e, func=None):
        sr = self.shallow(recv, st)
        rc = sr if sr.op in ('self', 'new') else self.content(recv, st)
        ca, ckw = self._contents(args, kw, st)
        self.n_calls += 1
        if name == 'copy' and len(ca) + len(ckw) == 1 and self.is_backend(sr):
            ca, ckw = ca or [next(iter(ckw.values()))], {}
            n = self.callnode(mk('ext', 'numpy.copy'), ca, {})
            self.emit(st, 'call', e, name='copy', recv=rc, args=ca, kw=ckw, node=n, callee=None, idents=args)
            return n
        if name in INPLACE_METHODS and func is None:
            r = self.container_method(recv, sr, rc, name, args, ca, ckw, st, e)
            if r is not None:
                return r
        # torch in-place methods
        if name.endswith('_') and not name.endswith('__') and func is None and name != 'requires_grad_':
            base = name[:-1]
            v = self.callnode(mk('meth', rc, base), ca, ckw)
            if base == 'copy':
                v = ca[0] if ca else v
            elif base == 'zero':
                v = T.ZERO
            elif base == 'fill' and ca:
                v = ca[0]
            self.emit(st, 'inplace', e, target=recv, op=base, value=v, before=rc, new=v)
            self.emit(st, 'call', e, name=name, recv=rc, args=ca, kw=ckw, node=v, callee=None, ident=recv, idents=args)
            self.mutate(recv, lambda c: v, st, e)
            return recv
        if name == 'get' and rc.op == 'dict' and ca and T.is_const(ca[0]) and all(isinstance(k, N) and T.is_const(k) for k, _ in rc.args):
            for k, v in rc.args:
                if k is ca[0]:
                    return v
            return args[1] if len(args) > 1 else NONE
        pure = name in PURE_METHODS or name in self.policy.pure
        ep = st.epoch.get(sr, 0)
        extra = None
        if not pure:
            extra = self.site(e)
        elif ep:
            extra = ep
        nkw = ckw
        if name == '__call__' and sr.op == 'param' and ep in self.settings:
            # evaluated with the parameters it was given last
            nkw = dict(ckw)
            nkw['@set'] = self.settings[ep]
        n = self.callnode(mk('meth', rc, name), ca, nkw, extra)
        self.emit(st, 'call', e, name=name, recv=rc, args=ca, kw=ckw, node=n, callee=func, ident=recv, idents=args)
        if name.startswith('set_') and sr.op == 'param':
            self.settings[self.site(e) + (name,)] = mk('tuple', *ca)
        if not pure and name not in READERS and name not in self.prog.readers():
            st.epoch[sr] = self.site(e) + (name,)
        return n

    def container_method(self, recv, sr, rc, name, args, ca, ckw, st, e):
        """list / dict / deque mutators on an untyped receiver."""
        kind = sr.op if sr.op in ('list', 'dict', 'append', 'map', 'cat', 'upd') else None
        if self.typeof(sr) is not None:
            return None
        if name == 'append' and len(ca) == 1:
            x = args[0]
            self.emit(st, 'append', e, base=recv, value=ca[0], basev=rc, ident=x)
            if sr.op == 'list':
                self.mutate(recv, lambda c: mk('list', *(self.shallow(recv, st).args + (x,))), st, e)
            else:
                self.mutate(recv, lambda c: mk('append', c, ca[0]), st, e)
            return NONE
        if name == 'extend' and len(ca) == 1:
            self.emit(st, 'extend', e, base=recv, value=ca[0], basev=rc)
            self.mutate(recv, lambda c: self._extend(c, ca[0]), st, e)
            return NONE
        if name == 'clear' and not ca:
            self.emit(st, 'clear', e, base=recv, basev=rc)
            self.mutate(recv, lambda c: mk('dict') if c.op == 'dict' else mk('list'), st, e)
            return NONE
        if name == 'update' and sr.op in ('attr', 'param', 'upd') and (not ca and ckw or len(ca) == 1 and not ckw and ca[0].op == 'dict' and ca[0].args) and all(k is not None and not k.startswith('**') for k in ckw):
            items = list(ca[0].args) if ca else [(const(k), v) for k, v in ckw.items()]
            if all(isinstance(k, N) and T.is_const(k) for k, _ in items):
                for k, v in items:
                    self.emit(st, 'setitem', e, base=recv, key=k, value=v, basev=self.content(recv, st), aug=False)
                    self.mutate(recv, lambda c, k=k, v=v: self.upd(c, k, v, v), st, e)
                return NONE
        if name == 'update' and sr.op == 'dict' and len(ca) == 1 and ca[0].op == 'dict':
            items = list(sr.args)
            for k, v in ca[0].args:
                if any(kk is k for kk, _ in items):
                    items = [(kk, v if kk is k else x) for kk, x in items]
                else:
                    items.append((k, v))
            self.mutate(recv, lambda c: mk('dict', *items), st, e)
            return NONE
        if name == 'fill' and len(ca) == 1 and not ckw and kind is None:
            k = T.t_slice(NONE, NONE, NONE)
            self.emit(st, 'setitem', e, base=recv, key=k, value=ca[0], basev=self.content(recv, st), aug=False)
            self.mutate(recv, lambda c: self.upd(c, k, ca[0], ca[0]), st, e)
            return NONE
        if name == 'pop' and sr.op == 'list' and sr.args and not ca:
            self.mutate(recv, lambda c: mk('list', *sr.args[:-1]), st, e)
            return sr.args[-1]
        if kind is None and name in ('update', 'add', 'pop', 'remove', 'insert', 'resize', 'put', 'setdefault', 'sort', 'reverse') and sr.op not in ('obj', 'list', 'dict'):
            # opaque object: keep as ordinary impure call, but record the mutation of the receiver value
            return None
        n = self.callnode(mk('meth', rc, name), ca, ckw, self.site(e))
        self.emit(st, 'call', e, name=name, recv=rc, args=ca, kw=ckw, node=n, callee=None, ident=recv, idents=args)
        self.emit(st, 'inplace', e, target=recv, op=name, value=n, before=rc, new=n)
        self.mutate(recv, lambda c: mk('mut', name, c, *ca), st, e)
        return n

    # ---- inlining
    def call_closure(self, fn, args, kw, st, e):
        node, module, cls, selfn, snap, func, idx, fid = self.closures[fn.id]
        if len(self.stack) >= self.policy.max_depth or sum(1 for x in self.stack if x.node is node) >= 1:
            ca, ckw = self._contents(args, kw, st)
            return self.callnode(fn, ca, ckw, self.site(e))
        live = any(f.fid == fid for f in self.stack)
        fr = Frame(func, node, module, cls, selfn, st.pc, object())
        fr.qual = (func.qual if func else '?') + '.<%s>' % getattr(node, 'name', 'lambda')
        fr.enclosing = (idx, fid, snap)
        fr.enc_live = live
        return self.run_body(fr, node, args, kw, None, st, e)

    def call_func(self, f, args, kw, recv, st, e):
        fr = Frame(f, f.node, f.module, f.cls, recv, st.pc, object())
        self.n_inlined += 1
        self.n_funcs.add(f.qual)
        first = recv if f.kind in ('method', 'property', 'setter', 'class') else None
        if f.kind == 'class' and first is not None and first.op in ('self', 'new') and first.args[0] in self.prog.classes:
            first = mk('cls', first.args[0])
        return self.run_body(fr, f.node, args, kw, first, st, e)

    def bind(self, node, args, kw, first, st, fr):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(args)
        if first is not None:
            pos = [first] + pos
        # spread star arguments
        flat = []
        for p in pos:
            flat.append(p)
        i = 0
        rest = []
        for j, p in enumerate(flat):
            if isinstance(p, N) and p.op == 'star':
                # unknown number of positionals
                k = 0
                while i < len(names) and names[i] not in kw:
                    env[names[i]] = mk('index', p.args[0], const(k))
                    i += 1
                    k += 1
                rest.append(p)
                continue
            if i < len(names):
                env[names[i]] = p
                i += 1
            else:
                rest.append(p)
        if a.vararg:
            if len(rest) == 1 and rest[0].op == 'star':
                env[a.vararg.arg] = rest[0].args[0]
            else:
                env[a.vararg.arg] = mk('tuple', *rest)
        kwn = {x.arg for x in a.kwonlyargs} | set(names)
        extra = {}
        for k, v in kw.items():
            if k in kwn:
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            if '**' in extra and len(extra) == 1:
                env[a.kwarg.arg] = extra['**']
            else:
                env[a.kwarg.arg] = mk('dict', *[(const(k) if k != '**' else mk('star'), v) for k, v in extra.items()])
        defs = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + \
            [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for n, d in defs:
            if n not in env:
                if '**' in extra and not a.kwarg:
                    env[n] = mk('index', extra['**'], const(n))
                else:
                    env[n] = self.default(d, fr, st)
        for n in list(names) + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                env[n] = mk('index', extra['**'], const(n)) if '**' in extra else UNDEF
        return env

    def default(self, d, fr, st):
        if isinstance(d, ast.Constant):
            return const(d.value)
        self.stack.append(fr)
        try:
            return self.ev(d, st)
        finally:
            self.stack.pop()

    def run_body(self, fr, node, args, kw, first, st, e):
        base, parent = st.pc, st.events
        chain = self.chain
        env = self.bind(node, args, kw, first, st, fr)
        self.chain = chain + ((getattr(e, 'lineno', 0), getattr(e, 'col_offset', 0), getattr(node, 'name', 'lambda')),) if e is not None else chain
        sub = st.copy()
        sub.frames.append(env)
        evs = []
        sub.events = evs
        self.stack.append(fr)
        try:
            if isinstance(node, ast.Lambda):
                v = self.rvalue(node.body, sub)
                fr.exits.append(('ret', sub, v, []))
                end = None
            else:
                end = self.block(node.body, sub)
                if end is not None:
                    fr.exits.append(('ret', end, NONE, []))
        finally:
            self.stack.pop()
            self.chain = chain
        ev = self.emit(st, 'scope', e, fn=fr.func, qual=fr.qual, recv=first, args=[self.content(a, st) for a in args],
                       kw={k: self.content(v, st) for k, v in kw.items()})
        ev.kids = [evs]
        rets = [(s, v) for k, s, v, _ in fr.exits if k == 'ret']
        fr.has_raise = any(k == 'raise' for k, *_ in fr.exits)
        if not rets:
            ev.d['ret'] = UNDEF
            # no normal exit
            if any(k == 'raise' for k, *_ in fr.exits):
                ev.d['noreturn'] = True
            return mk('noreturn', self.site(node) if self.stack else ())
        cs, cv = rets[-1]
        cs = cs.copy()
        n = len(base)
        for s, v in reversed(rets[:-1]):
            c = t_and(s.pc[n:])
            cv = T.t_phi(c, v, cv)
            cs = self.merge(c, s, cs, base, parent)
        st.frames = [dict(f) for f in cs.frames[:len(st.frames)]]
        st.heap, st.over, st.epoch = dict(cs.heap), dict(cs.over), dict(cs.epoch)
        ev.d['ret'] = self.content(cv, st)
        return cv

    # ------------------------------------------------------------ entry
    def run(self, func, cls=None, args=None, heap=None, types=None, state=None, selfn=None):
        """Analyse `func` for receiver class `cls`; returns Result."""
        st = state.copy() if state is not None else State()
        st.events = []
        st.pc = ()
        st.frames = [{}]
        if selfn is None and cls is not None and func.kind in ('method', 'property', 'setter'):
            selfn = mk('self', cls.qual)
        if func.kind == 'class':
            selfn = mk('cls', cls.qual if cls else func.cls.qual)
        for (k, v) in (heap or {}).items():
            st.heap[(selfn, k) if isinstance(k, str) else k] = v
        fr = Frame(func, func.node, func.module, func.cls, selfn, (), object())
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        env = {}
        args = args or {}
        start = 0
        if selfn is not None and names:
            env[names[0]] = selfn
            start = 1
        for nm in names[start:]:
            env[nm] = args[nm] if nm in args else mk('param', nm)
        if a.vararg:
            env[a.vararg.arg] = args.get(a.vararg.arg, mk('param', '*' + a.vararg.arg))
        if a.kwarg:
            env[a.kwarg.arg] = args.get(a.kwarg.arg, mk('param', '**' + a.kwarg.arg))
        for k, c in (types or {}).items():
            if k in env:
                self.TYPES[env[k].id] = c
        st.frames = [env]
        evs = st.events
        self.n_funcs.add(func.qual)
        self.stack.append(fr)
        try:
            end = self.block(func.node.body, st)
            if end is not None:
                fr.exits.append(('ret', end, NONE, []))
        finally:
            self.stack.pop()
        rets = [(s, v) for k, s, v, _ in fr.exits if k == 'ret']
        if not rets:
            return Result(UNDEF, None, evs, fr.exits, self, env)
        cs, cv = rets[-1]
        cs = cs.copy()
        for s, v in reversed(rets[:-1]):
            c = t_and(s.pc)
            cv = T.t_phi(c, v, cv)
            cs = self.merge(c, s, cs, (), evs)
        return Result(self.content(cv, cs), cs, evs, fr.exits, self, env)


# ---------------------------------------------------------------- event helpers
def flat(events, into=None):
    """All events, in order, compound ones expanded."""
    for e in events:
        yield e
        for k in e.kids:
            yield from flat(k)


def calls(events, name=None):
    for e in flat(events):
        if e.kind == 'call' and (name is None or e.name == name or (isinstance(name, (set, tuple, list)) and e.name in name)):
            yield e
