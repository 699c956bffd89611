"""Program model: every module of the package parsed from /repo's working tree,
import resolution, class hierarchy (C3 linearisation) and method lookup."""
import ast
import os
import warnings

REPO = os.environ.get('SA_REPO', '/repo')
PKG = 'mushroom_rl'


class AnalysisError(Exception):
    """The analysis cannot answer (unparsable source, anchor vanished)."""


def _neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    return ast.copy_location(ast.UnaryOp(ast.Not(), e), e)


def _breaks(stmts):
    """A break of the enclosing loop occurs in stmts."""
    for s in stmts:
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            if _breaks(s.orelse):
                return True
        elif isinstance(s, (ast.If, ast.With, ast.Try)):
            for f in ('body', 'orelse', 'finalbody'):
                if _breaks(getattr(s, f, [])):
                    return True
            for h in getattr(s, 'handlers', []):
                if _breaks(h.body):
                    return True
    return False


class Normalise(ast.NodeTransformer):
    """Spellings of one loop: `while True: if not c: break; ...` is `while c: ...`."""

    def visit_While(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.Constant) and n.test.value and not n.orelse:
            b = n.body[0]
            if isinstance(b, ast.If) and len(b.body) == 1 and isinstance(b.body[0], ast.Break) and not _breaks(b.orelse):
                n.test = _neg(b.test)
                n.body = b.orelse + n.body[1:] or [ast.copy_location(ast.Pass(), n)]
            elif isinstance(b, ast.If) and len(b.orelse) == 1 and isinstance(b.orelse[0], ast.Break):
                n.test = b.test
                n.body = b.body + n.body[1:]
        return n


class Func:
    __slots__ = ('name', 'node', 'module', 'cls', 'qual', 'kind')

    def __init__(self, name, node, module, cls=None):
        self.name, self.node, self.module, self.cls = name, node, module, cls
        self.qual = (cls.qual + '.' if cls else module.name + '.') + name
        self.kind = 'function'
        for d in getattr(node, 'decorator_list', []):
            s = ast.unparse(d)
            if s == 'staticmethod':
                self.kind = 'static'
            elif s == 'classmethod':
                self.kind = 'class'
            elif s in ('property', 'functools.cached_property', 'cached_property') or s.endswith('abstractproperty'):
                self.kind = 'property'
            elif s.endswith('.setter'):
                self.kind = 'setter'
            elif s.endswith('.deleter'):
                self.kind = 'deleter'
        if cls and self.kind == 'function':
            self.kind = 'method'

    @property
    def loc(self):
        return '%s:%d' % (self.module.rel, self.node.lineno)

    def __repr__(self):
        return '<Func %s>' % self.qual


class Class:
    def __init__(self, name, node, module, outer=None):
        self.name, self.node, self.module, self.outer = name, node, module, outer
        self.qual = (outer.qual if outer else module.name) + '.' + name
        self.methods, self.setters, self.attrs, self.inner = {}, {}, {}, {}
        for st in self._flat(node.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(st.name, st, module, self)
                if f.kind == 'setter':
                    self.setters[st.name] = f
                elif f.kind != 'deleter':
                    self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.attrs[st.target.id] = st.value
            elif isinstance(st, ast.ClassDef):
                self.inner[st.name] = Class(st.name, st, module, self)
        self._mro = None

    @staticmethod
    def _flat(body):
        for st in body:
            if isinstance(st, ast.If):
                yield from Class._flat(st.body)
                yield from Class._flat(st.orelse)
            elif isinstance(st, ast.Try):
                yield from Class._flat(st.body)
                for h in st.handlers:
                    yield from Class._flat(h.body)
            else:
                yield st

    @property
    def loc(self):
        return '%s:%d' % (self.module.rel, self.node.lineno)

    def __repr__(self):
        return '<Class %s>' % self.qual


class Module:
    def __init__(self, name, path, rel, tree, is_pkg):
        self.name, self.path, self.rel, self.tree, self.is_pkg = name, path, rel, tree, is_pkg
        self.classes, self.functions, self.imports, self.stars, self.assigns = {}, {}, {}, [], {}
        self._scan(tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.ClassDef):
                self.classes[st.name] = Class(st.name, st, self)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = Func(st.name, st, self)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = ('mod', a.name)
                    else:
                        self.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                base = self._from(st)
                for a in st.names:
                    if a.name == '*':
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = st.value
            elif isinstance(st, (ast.If, ast.With)):
                self._scan(st.body)
                self._scan(getattr(st, 'orelse', []))
            elif isinstance(st, ast.Try):
                self._scan(st.body)
                for h in st.handlers:
                    self._scan(h.body)
                self._scan(st.orelse)
                self._scan(st.finalbody)

    def _from(self, st):
        if not st.level:
            return st.module
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (st.level - 1)]
        return '.'.join(parts + ([st.module] if st.module else []))


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.extra_modules = {}
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisError('package directory %s missing' % root)
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)
                name = rel[:-3].replace(os.sep, '.')
                is_pkg = name.endswith('.__init__')
                if is_pkg:
                    name = name[:-9]
                with open(p, encoding='utf-8') as fh, warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    src = fh.read()
                    try:
                        tree = ast.parse(src, p)
                    except SyntaxError as e:
                        raise AnalysisError('cannot parse %s: %s' % (rel, e))
                self.modules[name] = Module(name, p, rel, ast.fix_missing_locations(Normalise().visit(tree)), is_pkg)
        self.classes = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self._reg(c)
        self._subs = None
        from . import terms
        terms.METH_SIGS.clear()
        terms.METH_SIGS.update(self.signatures())

    def _reg(self, c):
        self.classes[c.qual] = c
        for i in c.inner.values():
            self._reg(i)

    def signatures(self):
        """Parameter names (and constant defaults) of the methods of each name, where all definitions agree on a position."""
        out = {}
        for c in self.classes.values():
            for n, f in c.methods.items():
                if f.kind not in ('method', 'static', 'class') or n.startswith('__'):
                    continue
                a = f.node.args
                ps = [x.arg for x in a.posonlyargs + a.args]
                d = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
                if f.kind != 'static':
                    ps = ps[1:]
                d = {k: v.value for k, v in d.items() if isinstance(v, ast.Constant)}
                out.setdefault(n, []).append((ps, d, a.vararg is not None))
        return out

    # ---- names -------------------------------------------------------
    def lookup(self, module, name, seen=None):
        """Resolve a module-level name: Class | Func | ('mod',dotted) | ('ext',dotted) | ('assign',module,expr) | None."""
        seen = seen or set()
        if (module.name, name) in seen:
            return None
        seen.add((module.name, name))
        if name in module.classes:
            return module.classes[name]
        if name in module.functions:
            return module.functions[name]
        if name in module.imports:
            r = self._imp(module.imports[name], seen)
            if r is not None:
                return r
        if name in module.assigns:
            return ('assign', module, module.assigns[name])
        for s in module.stars:
            if s in self.modules:
                r = self.lookup(self.modules[s], name, seen)
                if r is not None:
                    return r
        if module.is_pkg and module.name + '.' + name in self.modules:
            return ('mod', module.name + '.' + name)
        return None

    def _imp(self, imp, seen):
        if imp[0] == 'mod':
            return ('mod', imp[1])
        _, base, nm = imp
        if base in self.modules:
            r = self.lookup(self.modules[base], nm, seen)
            if r is not None:
                return r
            if base + '.' + nm in self.modules:
                return ('mod', base + '.' + nm)
            return None
        return ('ext', '%s.%s' % (base, nm))

    def resolve_expr(self, module, e):
        """Resolve a dotted expression used as a base class / decorator."""
        if isinstance(e, ast.Name):
            return self.lookup(module, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(module, e.value)
            if isinstance(b, tuple) and b[0] == 'mod':
                if b[1] in self.modules:
                    r = self.lookup(self.modules[b[1]], e.attr)
                    if r is not None:
                        return r
                    if b[1] + '.' + e.attr in self.modules:
                        return ('mod', b[1] + '.' + e.attr)
                return ('ext', b[1] + '.' + e.attr)
            if isinstance(b, tuple) and b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
            if isinstance(b, Class):
                return b.inner.get(e.attr)
        return None

    # ---- classes -----------------------------------------------------
    def bases(self, c):
        out = []
        for b in c.node.bases:
            r = self.resolve_expr(c.module, b)
            if r is None and c.outer and isinstance(b, ast.Name):
                r = c.outer.inner.get(b.id)
            out.append(r if isinstance(r, Class) else ('ext', r[1] if isinstance(r, tuple) and r[0] in ('ext', 'mod') else ast.unparse(b)))
        return out

    def mro(self, c):
        if c._mro is not None:
            return c._mro
        c._mro = [c]   # recursion guard
        seqs = []
        bs = self.bases(c)
        for b in bs:
            seqs.append(list(self.mro(b)) if isinstance(b, Class) else [b])
        seqs.append(list(bs))
        out = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            for s in seqs:
                if s and s[0] == h:
                    del s[0]
        c._mro = out
        return out

    def find(self, c, name, after=None):
        """Method `name` of class c along the MRO (optionally after class `after`)."""
        mro = self.mro(c)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for k in mro:
            if isinstance(k, Class) and name in k.methods:
                return k.methods[name]
        return None

    def find_setter(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Class):
                if name in k.setters:
                    return k.setters[name]
        return None

    def find_attr(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Class) and name in k.attrs:
                return k, k.attrs[name]
        return None

    def is_sub(self, c, qual_or_name):
        for k in self.mro(c):
            if isinstance(k, Class) and (k.qual == qual_or_name or k.name == qual_or_name):
                return True
        return False

    def ext_bases(self, c):
        return [k[1] for k in self.mro(c) if not isinstance(k, Class)]

    def subclasses(self, base, strict=True):
        out = []
        for c in self.classes.values():
            m = self.mro(c)
            if base in m and (not strict or c is not base):
                out.append(c)
        return sorted(out, key=lambda c: c.qual)

    def cls(self, name):
        """Find a class by short name (unique) or qualified name."""
        if name in self.classes:
            return self.classes[name]
        hits = [c for c in self.classes.values() if c.name == name]
        if len(hits) == 1:
            return hits[0]
        if len(hits) > 1:
            hits.sort(key=lambda c: len(c.qual))
            return hits[0]
        return None

    def funcs_by_qual(self):
        if not hasattr(self, '_fbq'):
            d = {}
            for m in self.modules.values():
                for f in m.functions.values():
                    d[f.qual] = f
            for c in self.classes.values():
                for f in list(c.methods.values()) + list(c.setters.values()):
                    d[f.qual] = f
            self._fbq = d
        return self._fbq

    def effects(self):
        """(writes, reads): for each method or function name, the attribute names any definition of it may write (in place included) or read,
        callees by name included; '*' when not determined."""
        if hasattr(self, '_effects'):
            return self._effects
        muts = set('append extend insert pop popleft appendleft clear remove add setdefault popitem sort reverse fill_ copy_ zero_ fill update set_'.split())
        W, R, C = {}, {}, {}
        props = {}

        def root(x):
            while isinstance(x, ast.Subscript):
                x = x.value
            return x.attr if isinstance(x, ast.Attribute) else None

        def scan(f):
            w, r, c = set(), set(), set()
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute):
                    if isinstance(x.ctx, ast.Load):
                        r.add(x.attr)
                    else:
                        w.add(x.attr)
                if isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load):
                    w.add(root(x))
                    if isinstance(root(x), type(None)):
                        w.add('*sub')
                if isinstance(x, ast.AugAssign):
                    w.add(root(x.target))
                    r.add(root(x.target))
                if isinstance(x, ast.Call):
                    if isinstance(x.func, ast.Attribute):
                        c.add(x.func.attr)
                        if x.func.attr in muts or x.func.attr.endswith('_'):
                            w.add(root(x.func.value))
                        if x.func.attr in ('step', 'backward'):
                            w.add('*tensor')
                    elif isinstance(x.func, ast.Name):
                        c.add(x.func.id)
                        if x.func.id == 'setattr':
                            w.add(x.args[1].value if len(x.args) > 1 and isinstance(x.args[1], ast.Constant) else '*')
                    else:
                        w.add('*')
            w.discard(None)
            r.discard(None)
            return w, r, c
        tensors = set()
        for m in self.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    w, r, c = scan(x)
                    W.setdefault(x.name, set()).update(w)
                    R.setdefault(x.name, set()).update(r)
                    C.setdefault(x.name, set()).update(c)
                    if any(isinstance(d, ast.Name) and d.id == 'property' for d in x.decorator_list):
                        props.setdefault(x.name, set()).update(r)
                if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id in ('torch', 'nn') for y in ast.walk(x.value)):
                    tensors.update(t.attr for t in x.targets if isinstance(t, ast.Attribute))
        # an attribute read or written that is a property stands for what the property touches
        C = {n: {y for y in c if y in W} | {y for y in R[n] if y in props} for n, c in C.items()}
        again = True
        while again:
            again = False
            for n, cs in C.items():
                w, r = len(W[n]), len(R[n])
                for y in cs:
                    W[n] |= W[y]
                    R[n] |= R[y]
                if (w, r) != (len(W[n]), len(R[n])):
                    again = True
        self._effects = W, R, props, tensors
        return self._effects

    def unaffected(self, attr, meth):
        """No definition of meth can change what reading the attribute (or property) yields."""
        W, R, props, tensors = self.effects()
        if meth not in W or '*' in W[meth] or attr in tensors:
            return False
        names = {attr} | (R.get(attr, set()) if attr in props else set())
        return not (names & W[meth]) and not (names & tensors)

    def commute(self, meth, after):
        """What a call of meth yields does not depend on a previous call of after."""
        W, R, props, tensors = self.effects()
        if meth not in R or after not in W or '*' in W[after] or R[meth] & tensors:
            return False
        return not (R[meth] & W[after])

    def fixed_attrs(self):
        """Attribute names bound only by constructors and never updated in place, anywhere in the package."""
        if hasattr(self, '_fixed'):
            return self._fixed
        init, other = set(), set()
        muts = set('append extend insert pop popleft appendleft clear remove add setdefault popitem sort reverse fill_ copy_ zero_ fill'.split())

        def visit(n, tgt):
            for x in ast.iter_child_nodes(n):
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    other.add(x.name)
                    visit(x, init if x.name == '__init__' and isinstance(n, ast.ClassDef) else other)
                    continue
                if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load):
                    (tgt if isinstance(x.value, ast.Name) and x.value.id == 'self' else other).add(x.attr)
                if isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load):
                    y = x.value
                    while isinstance(y, ast.Subscript):
                        y = y.value
                    if isinstance(y, ast.Attribute):
                        other.add(y.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in muts and isinstance(x.func.value, ast.Attribute):
                    other.add(x.func.value.attr)
                if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id in ('torch', 'nn') for y in ast.walk(x.value)):
                    other.update(t.attr for t in x.targets if isinstance(t, ast.Attribute))      # tensors are stepped by optimisers
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Attribute):
                    other.add(x.target.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                    other.add(x.args[1].value)
                visit(x, tgt)
        for m in self.modules.values():
            visit(m.tree, other)
        self._fixed = init - other
        return self._fixed

    def readers(self):
        """Names of methods no definition of which in the package may change its object: no store to self, no call that may."""
        if hasattr(self, '_readers'):
            return self._readers
        defs = {}
        for c in self.classes.values():
            for f in list(c.methods.values()):
                defs.setdefault(f.name, []).append((c, f))
        ok = set(defs) - set('pop popitem setdefault __delitem__ append_episode_info zero_grad update_optimizer_parameters seed reset_parameters __setitem__ __init__'.split())
        quiet = set("""shape size reshape squeeze unsqueeze ravel flatten view astype copy clone detach numpy cpu cuda to float int double long item tolist type
            max min sum mean any all argmax argmin prod std var cumsum clip round transpose dot matmul repeat items keys values get index count join format split
            randint zeros ones concatenate where arange""".split())

        def needs(f):
            """Names f calls through self or super (None: it writes to its object)."""
            out = set()
            for x in ast.walk(f.node):
                if isinstance(x, (ast.Attribute, ast.Subscript)) and not isinstance(x.ctx, ast.Load):
                    y = x
                    while isinstance(y, (ast.Attribute, ast.Subscript)):
                        y = y.value
                    if isinstance(y, ast.Name) and y.id == 'self' or not isinstance(y, ast.Name):
                        return None
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                    y = x.func
                    while isinstance(y, (ast.Attribute, ast.Subscript)):
                        y = y.value
                    if isinstance(y, ast.Name) and y.id == 'self' and x.func.attr not in quiet:
                        out.add(x.func.attr)
                    if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == 'super':
                        out.add(x.func.attr)
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    return None
            return out
        req = {}
        for n in list(ok):
            r = [needs(f) for _, f in defs[n]]
            if None in r:
                ok.discard(n)
            else:
                req[n] = set().union(*r)
        while True:
            bad = {n for n in ok if req[n] - ok}
            if not bad:
                break
            ok -= bad
        self._readers = ok
        return ok

    def need_cls(self, name):
        c = self.cls(name)
        if c is None:
            raise AnalysisError('class %s not found in the package' % name)
        return c

    def module(self, name):
        return self.modules.get(name) or self.extra_modules[name]

    def func(self, modname, name):
        m = self.modules.get(modname)
        if m and name in m.functions:
            return m.functions[name]
        # moved? search a unique definition by name, or a re-export
        if m:
            r = self.lookup(m, name)
            if isinstance(r, Func):
                return r
        hits = [mm.functions[name] for mm in self.modules.values() if name in mm.functions]
        return hits[0] if len(hits) == 1 else None
