"""Parses the repository and resolves names to definitions."""
import ast
import builtins
import copy
import os
import re

PKG = 'tensorflow_transform'
SKIP_SUFFIX = ('_test.py', '_pb2.py')
SKIP_FILES = {'test_case.py', 'tft_unit.py', 'test_helpers.py', 'test_common.py',
              'test_metadata.py', 'schema_utils_test_cases.py'}
BUILTINS = set(dir(builtins))


class FuncInfo:
    def __init__(self, qual, node, mod, cls=None, outer=None):
        self.qual, self.node, self.mod, self.cls, self.outer = qual, node, mod, cls, outer
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        decs = getattr(node, 'decorator_list', [])
        self.dec_names = [ast.unparse(d) for d in decs]
        self.is_static = 'staticmethod' in self.dec_names
        self.is_classmethod = 'classmethod' in self.dec_names
        self.is_property = any(d == 'property' or d.endswith('.getter') for d in self.dec_names)
        self.is_setter = any(d.endswith('.setter') for d in self.dec_names)

    @property
    def loc(self):
        return '%s:%d' % (self.mod.relpath, self.node.lineno)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return self.qual


class ClassInfo:
    def __init__(self, qual, node, mod):
        self.qual, self.node, self.mod = qual, node, mod
        self.name = node.name
        self.methods = {}
        self.setters = {}
        self.attrs = {}
        self.nested = {}
        self.nt_fields = None     # [(name, default_node or None)]
        self.base_names = []

    @property
    def loc(self):
        return '%s:%d' % (self.mod.relpath, self.node.lineno)

    def __repr__(self):
        return self.qual


class _Rename(ast.NodeTransformer):
    """Maps identifiers that were only renamed back to their reference name."""

    def __init__(self, table):
        self.t = table

    def visit(self, n):
        self.generic_visit(n)
        t = self.t
        if isinstance(n, ast.Name) and n.id in t:
            n.id = t[n.id]
        elif isinstance(n, ast.Attribute) and n.attr in t:
            n.attr = t[n.attr]
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) and n.name in t:
            n.name = t[n.name]
        elif isinstance(n, ast.keyword) and n.arg in t:
            n.arg = t[n.arg]
        elif isinstance(n, ast.arg) and n.arg in t:
            n.arg = t[n.arg]
        elif isinstance(n, ast.alias):
            if n.name in t:
                n.name = t[n.name]
            if n.asname in t:
                n.asname = t[n.asname]
        return n


_BOUND = {'append', 'extend', 'add', 'update', 'insert'}


def unbind_methods(tree):
    """add = xs.append; add(v)  ->  xs.append(v), when both names are bound once."""
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        cand = {}
        stores = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stores[n.id] = stores.get(n.id, 0) + 1
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Attribute) \
                    and n.value.attr in _BOUND and isinstance(n.value.value, ast.Name):
                cand[n.targets[0].id] = n.value
        cand = {k: v for k, v in cand.items() if stores.get(k) == 1 and stores.get(v.value.id, 0) <= 1}
        if not cand:
            continue
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in cand:
                v = cand[n.func.id]
                n.func = ast.copy_location(ast.Attribute(ast.copy_location(ast.Name(v.value.id, ast.Load()), n.func), v.attr, ast.Load()), n.func)


class _Fresh(ast.NodeTransformer):
    def __init__(self, table):
        self.t = table

    def visit_Name(self, n):
        return ast.copy_location(ast.Name(self.t[n.id], n.ctx), n) if n.id in self.t else n


class _Blocks(ast.NodeTransformer):
    """Equivalent spellings of in-place updates, made one.

    t = x if c else y; t.append(v)   ->  if c: x.append(v) else: y.append(v)
    a.b.update({k: v for ...})       ->  for ...: a.b[k] = v
    a.b.extend([v for ...])          ->  for ...: a.b.append(v)
    a.b.extend(vs)                   ->  for v in vs: a.b.append(v)
    x[:] = v                         ->  t = v; del x[:]; x.extend(t)
    d.setdefault(k, v).append(x)     ->  if k not in d: d[k] = v
                                         d[k].append(x)
    """

    def __init__(self):
        self.params = [set()]
        self.uses = [{}]
        self.n = 0

    def visit_FunctionDef(self, fn):
        uses = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name):
                uses[n.id] = uses.get(n.id, 0) + 1
        self.params.append({a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs})
        self.uses.append(uses)
        self.generic_visit(fn)
        self.params.pop()
        self.uses.pop()
        return fn

    visit_AsyncFunctionDef = visit_FunctionDef

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self.block(b))
        return node

    def block(self, body):
        out = []
        i = 0
        while i < len(body):
            st = body[i]
            if i + 1 < len(body) and self.sorts(st, body[i + 1]):
                st.value = ast.copy_location(ast.Call(ast.copy_location(ast.Name('sorted', ast.Load()), st), [st.value], body[i + 1].value.keywords), st)
                i += 1
            while i + 1 < len(body) and self.fills(st, body[i + 1]):
                nx = body[i + 1]
                st.value = ast.copy_location(ast.Call(st.value.func, st.value.args, st.value.keywords + [ast.keyword(nx.targets[0].attr, nx.value)]), st.value)
                i += 1
            r = self.chosen(st, body[i + 1] if i + 1 < len(body) else None)
            if r is not None:
                st, k = r
                i += k
            for st in [z for w in self.counted(st) for x in self.lookup(w) for y in self.default(x) for z in self.refill(y)]:
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
                    out.extend(self.spelled(st))
                else:
                    out.append(st)
            i += 1
        return self.aliases(self.contexts(out))

    def sorts(self, st, nxt):
        """A list stored in an attribute and sorted there."""
        if not (isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Attribute) and pure(st.targets[0])):
            return False
        c, v = nxt.value if isinstance(nxt, ast.Expr) else None, st.value
        return (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'sort' and not c.args and all(k.arg for k in c.keywords)
                and ast.unparse(c.func.value) == ast.unparse(st.targets[0])
                and (isinstance(v, (ast.List, ast.ListComp)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'sorted')))

    def fills(self, st, nxt):
        """A message and, next to it, one of its fields:
        m = x_pb2.M(a=1); m.b = 2  ->  m = x_pb2.M(a=1, b=2)"""
        if not (isinstance(st, ast.Assign) and isinstance(nxt, ast.Assign) and len(st.targets) == len(nxt.targets) == 1):
            return False
        x, c, t = st.targets[0], st.value, nxt.targets[0]
        if not (isinstance(x, ast.Name) and isinstance(c, ast.Call) and not c.args and all(k.arg for k in c.keywords) and isinstance(t, ast.Attribute)
                and isinstance(t.value, ast.Name) and t.value.id == x.id and t.attr not in [k.arg for k in c.keywords]):
            return False
        f = c.func
        while isinstance(f, ast.Attribute) and not f.attr.endswith('_pb2'):
            f = f.value
        if not ((f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else '').endswith('_pb2') and f is not c.func):
            return False
        return not any(isinstance(n, ast.Name) and n.id == x.id for n in ast.walk(nxt.value))

    def contexts(self, body):
        """A context manager entered in some case only, spelled out."""
        out = []
        for st in body:
            if not (isinstance(st, ast.With) and len(st.items) == 1):
                out.append(st)
                continue
            e, v = st.items[0].context_expr, st.items[0].optional_vars
            here = lambda n: ast.copy_location(n, st)  # noqa: E731
            if isinstance(e, ast.Call) and not e.args and not e.keywords and ast.unparse(e.func) in ('contextlib.ExitStack', 'ExitStack') and isinstance(v, ast.Name):
                hits = [entered(b, v.id) for b in st.body]
                n = sum(h is not None for h in hits)
                uses = sum(isinstance(m, ast.Name) and m.id == v.id for b in st.body for m in ast.walk(b))
                if not n or uses != n or sum(h is not None and h[0] is not None for h in hits) > 1 or (hits[-1] is not None and n == 1):
                    out.append(st)
                    continue
                out.extend(self.entering(st.body, hits, st))
                continue
            if isinstance(e, ast.Name) and v is None and out and chosen_name(out[-1]) == e.id and self.uses[-1].get(e.id) == 2 + isinstance(out[-1], ast.If):
                p = out[-1]
                e = p.value if isinstance(p, ast.Assign) else here(ast.IfExp(p.test, p.body[0].value, p.orelse[0].value))
                if not (no_context(e.body) or no_context(e.orelse)):
                    out.append(st)
                    continue
                out.pop()
            if isinstance(e, ast.IfExp) and v is None and (no_context(e.body) or no_context(e.orelse)):
                def under(x):
                    b = copy.deepcopy(st.body)
                    return b if no_context(x) else [here(ast.With([ast.withitem(x, None)], b))]
                out.append(here(ast.If(e.test, under(e.body), under(e.orelse))))
                continue
            out.append(st)
        return out

    def entering(self, body, hits, at):
        """What follows an enter_context, inside of that context."""
        k = next((i for i, h in enumerate(hits) if h is not None), None)
        if k is None:
            return body or [ast.copy_location(ast.Pass(), at)]
        test, x, name = hits[k]
        rest = self.entering(body[k + 1:], hits[k + 1:], at)
        w = ast.copy_location(ast.With([ast.withitem(x, name)], rest), at)
        return body[:k] + [w if test is None else ast.copy_location(ast.If(test, [w], copy.deepcopy(rest)), at)]

    def held(self, body):
        """A container of the function that an attribute holds as well:
        h = o.a = [..]; h.append(v)  ->  o.a = [..]; o.a.append(v)"""
        i = 0
        while i < len(body):
            st = body[i]
            i += 1
            if not isinstance(st, ast.Assign):
                continue
            rest = body[i:]
            at = [t for t in st.targets if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name)]
            nm = [t for t in st.targets if isinstance(t, ast.Name)]
            if len(at) == len(nm) == 1 and len(st.targets) == 2:
                a, h = at[0], nm[0].id
            elif len(st.targets) == len(at) == 1 and isinstance(st.value, ast.Name):
                a, h = at[0], st.value.id
            elif len(st.targets) == len(nm) == 1 and isinstance(st.value, ast.Attribute) and isinstance(st.value.value, ast.Name) and any(
                    isinstance(x, ast.Assign) and any(ast.dump(t) == ast.dump(ast.Attribute(st.value.value, st.value.attr, ast.Store())) for t in x.targets
                                                      if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name)) for x in body[:i - 1]):
                a, h = st.value, nm[0].id
            else:
                continue
            nodes = [n for x in rest for n in ast.walk(x)]
            if h == a.value.id or any(isinstance(n, ast.Name) and n.id in (h, a.value.id) and not isinstance(n.ctx, ast.Load)
                                      or isinstance(n, ast.Attribute) and n.attr == a.attr and not isinstance(n.ctx, ast.Load) for n in nodes):
                continue
            here = lambda n: isinstance(n, ast.Name) and n.id == h
            if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and here(n.func.value) and n.func.attr in MUTATORS
                       or isinstance(n, ast.Subscript) and here(n.value) and not isinstance(n.ctx, ast.Load) for n in nodes):
                continue
            sub = _Place(h, ast.Attribute(ast.Name(a.value.id, ast.Load()), a.attr, ast.Load()))
            body = body[:i - 1] + [st if len(st.targets) == 1 else ast.copy_location(ast.Assign([a], st.value), st)] + [ast.fix_missing_locations(sub.visit(x)) for x in rest]
            if len(st.targets) == 2:
                # the name itself, should something outside of this block look at it
                body.insert(i, ast.copy_location(ast.Assign([ast.Name(h, ast.Store())], ast.Attribute(ast.Name(a.value.id, ast.Load()), a.attr, ast.Load())), st))
                ast.fix_missing_locations(body[i])
                i += 1
        return body

    def counted(self, st):
        """for k in itertools.count(c): ..  ->  k = c - 1; while True: k += 1; .."""
        if isinstance(st, ast.For) and not st.orelse and isinstance(st.target, ast.Name) and isinstance(st.iter, ast.Call) and not st.iter.keywords \
                and isinstance(st.iter.func, ast.Attribute) and ast.unparse(st.iter.func) == 'itertools.count' and len(st.iter.args) <= 1 \
                and all(isinstance(x, ast.Constant) and type(x.value) is int for x in st.iter.args) \
                and not any(isinstance(n, ast.Name) and n.id == st.target.id and not isinstance(n.ctx, ast.Load) for x in st.body for n in ast.walk(x)):
            c = st.iter.args[0].value if st.iter.args else 0
            k = st.target.id
            new = [ast.Assign([ast.Name(k, ast.Store())], ast.Constant(c - 1)),
                   ast.While(ast.Constant(True), [ast.AugAssign(ast.Name(k, ast.Store()), ast.Add(), ast.Constant(1))] + st.body, [])]
            return [ast.fix_missing_locations(ast.copy_location(x, st)) for x in new]
        return [st]

    def aliases(self, body):
        """A name for a place (p = d[k]) through which the object there is changed."""
        body = self.held(body)
        for i, st in enumerate(body):
            if not (isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.Subscript)
                    and isinstance(st.value.value, ast.Name) and pure(st.value.slice)):
                continue
            p, d = st.targets[0].id, st.value.value.id
            rest = body[i + 1:]
            names = [n for x in rest for n in ast.walk(x) if isinstance(n, ast.Name)]
            if sum(1 for n in names if n.id == p) + 1 != self.uses[-1].get(p) or p == d:
                continue
            fixed = {n.id for n in ast.walk(st.value) if isinstance(n, ast.Name)} | {p}
            if any(n.id in fixed and not isinstance(n.ctx, ast.Load) for n in names):
                continue
            changed = False
            ok = True
            for x in rest:
                for n in ast.walk(x):
                    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                        ok = False
                    if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
                        changed = changed or n.value.id == p
                        ok = ok and n.value.id != d
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in MUTATORS:
                        changed = changed or n.func.value.id == p
                        ok = ok and n.func.value.id != d
            if changed and ok:
                sub = _Place(p, st.value)
                return body[:i] + self.aliases([sub.visit(x) for x in rest])
        return body

    def lookup(self, st):
        """try: v = d[k] except KeyError: ...  ->  if k in d: v = d[k] else: ..."""
        if not (isinstance(st, ast.Try) and len(st.body) == len(st.handlers) == 1 and not st.orelse and not st.finalbody):
            return [st]
        h, b = st.handlers[0], st.body[0]
        if not (isinstance(h.type, ast.Name) and h.type.id == 'KeyError' and h.name is None and isinstance(b, (ast.Assign, ast.Return)) and b.value is not None):
            return [st]
        if any(isinstance(n, ast.Raise) and n.exc is None for x in h.body for n in ast.walk(x)):
            return [st]
        v = b.value
        if isinstance(v, ast.Subscript) and pure(v.slice):
            k, base = v.slice, v.value
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'pop' and len(v.args) == 1 and not v.keywords and pure(v.args[0]):
            k, base = v.args[0], v.func.value
        else:
            return [st]
        out = []
        if not pure(base):
            self.n += 1
            t = 'base%%%d' % self.n
            out.append(ast.copy_location(ast.Assign([ast.copy_location(ast.Name(t, ast.Store()), st)], base), st))
            base = ast.copy_location(ast.Name(t, ast.Load()), st)
            if isinstance(v, ast.Subscript):
                v.value = base
            else:
                v.func.value = base
        test = ast.copy_location(ast.Compare(copy.deepcopy(k), [ast.In()], [copy.deepcopy(base)]), st)
        return out + [ast.copy_location(ast.If(test, [b], h.body), st)]

    def default(self, st):
        """setdefault, spelled out."""
        c = r = None
        if isinstance(st, (ast.Expr, ast.Assign)):
            c = st.value
            if isinstance(st, ast.Expr) and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and setdefault(c.func.value):
                r, c = c.func, c.func.value
            elif isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Subscript) and setdefault(st.targets[0].value) and len(st.targets) == 1:
                r, c = st.targets[0], st.targets[0].value
        if not setdefault(c):
            return [st]
        d, (k, v) = c.func.value, c.args
        here = lambda n: ast.copy_location(n, st)  # noqa: E731
        first = []
        if not pure(k):
            self.n += 1
            t = 'key%%%d' % self.n
            first = [here(ast.Assign([here(ast.Name(t, ast.Store()))], k))]
            k = here(ast.Name(t, ast.Load()))
        test = here(ast.Compare(copy.deepcopy(k), [ast.NotIn()], [copy.deepcopy(d)]))
        out = first + [here(ast.If(test, [self.store(st, d, copy.deepcopy(k), v)], []))]
        place = here(ast.Subscript(copy.deepcopy(d), copy.deepcopy(k), ast.Load()))
        if r is not None:
            r.value = place
            out.append(st)
        elif isinstance(st, ast.Assign):
            st.value = place
            out.append(st)
        return out

    def refill(self, st):
        """x[:] = v empties x and fills it again."""
        if not (isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Subscript) and pure(st.targets[0].value)):
            return [st]
        s, x = st.targets[0].slice, st.targets[0].value
        if not isinstance(s, ast.Slice) or s.lower or s.upper or s.step:
            return [st]
        here = lambda n: ast.copy_location(n, st)  # noqa: E731
        self.n += 1
        t = 'items%%%d' % self.n
        st.targets[0].ctx = ast.Del()
        grow = here(ast.Call(here(ast.Attribute(copy.deepcopy(x), 'extend', ast.Load())), [here(ast.Name(t, ast.Load()))], []))
        return [here(ast.Assign([here(ast.Name(t, ast.Store()))], st.value)), here(ast.Delete(st.targets)), here(ast.Expr(grow))]

    def chosen(self, st, nxt):
        """A receiver chosen by a conditional expression."""
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and self.places(st.value) and nxt is not None:
            t = st.targets[0].id
            r = self.receiver(nxt)
            if r is not None and isinstance(r, ast.Name) and r.id == t and self.uses[-1].get(t) == 2:
                return self.split(st.value, nxt, r), 1
        r = self.receiver(st)
        if r is not None and self.places(r):
            return self.split(r, st, r), 0
        return None

    def places(self, v):
        return isinstance(v, ast.IfExp) and all(isinstance(x, (ast.Name, ast.Attribute)) or isinstance(x, ast.Subscript) and pure(x) for x in (v.body, v.orelse))

    def receiver(self, st):
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute):
            return st.value.func.value
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Subscript):
            return st.targets[0].value
        return None

    def split(self, ife, st, r):
        def with_(x):
            new = copy.deepcopy(st)
            y = ast.copy_location(copy.deepcopy(x), st)
            if isinstance(new, ast.Expr):
                new.value.func.value = y
            else:
                new.targets[0].value = y
            return new
        return ast.copy_location(ast.If(ife.test, [with_(ife.body)], [with_(ife.orelse)]), st)

    def spelled(self, st):
        c = st.value
        f = c.func
        if not (isinstance(f, ast.Attribute) and f.attr in ('update', 'extend') and len(c.args) == 1 and not c.keywords):
            return [st]
        v, x = f.value, c.args[0]
        if not (isinstance(v, ast.Attribute) and (isinstance(v.value, ast.Name) or f.attr == 'extend' and pure(v)) or isinstance(v, ast.Name) and v.id in self.params[-1]):
            return [st]
        if f.attr == 'update' and isinstance(x, ast.DictComp):
            return [self.loops(st, x, lambda y: self.store(st, v, y.key, y.value))]
        if f.attr == 'update' and isinstance(x, ast.Dict) and x.keys and all(k is not None for k in x.keys):
            return [self.store(st, v, k, y) for k, y in zip(x.keys, x.values)]
        if f.attr == 'update' and isinstance(x, (ast.ListComp, ast.GeneratorExp)) and isinstance(x.elt, ast.Tuple) and len(x.elt.elts) == 2:
            return [self.loops(st, x, lambda y: self.store(st, v, *y.elt.elts))]
        if f.attr == 'update' and isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'zip' and len(x.args) == 2:
            k, y = [self.fresh(st) for _ in x.args]
            tgt = ast.copy_location(ast.Tuple([ast.copy_location(ast.Name(n, ast.Store()), st) for n in (k, y)], ast.Store()), st)
            loop = ast.For(tgt, x, [self.store(st, v, *[ast.copy_location(ast.Name(n, ast.Load()), st) for n in (k, y)])], [])
            return [ast.copy_location(loop, st)]
        if f.attr == 'extend' and isinstance(x, (ast.ListComp, ast.GeneratorExp)):
            return [self.loops(st, x, lambda y: self.append(st, v, y.elt))]
        if f.attr == 'extend' and isinstance(x, (ast.List, ast.Tuple)) and x.elts and not any(isinstance(e, ast.Starred) for e in x.elts):
            return [self.append(st, v, e) for e in x.elts]
        if f.attr == 'extend' and not isinstance(x, (ast.List, ast.Tuple, ast.Starred)):
            t = self.fresh(st)
            loop = ast.For(ast.copy_location(ast.Name(t, ast.Store()), st), x, [self.append(st, v, ast.copy_location(ast.Name(t, ast.Load()), st))], [])
            return [ast.copy_location(loop, st)]
        return [st]

    def fresh(self, st):
        self.n += 1
        return 'item%%%d' % self.n

    def store(self, st, v, k, y):
        v = ast.copy_location(copy.deepcopy(v), st)
        return ast.copy_location(ast.Assign([ast.copy_location(ast.Subscript(v, k, ast.Store()), st)], y), st)

    def append(self, st, v, y):
        v = ast.copy_location(copy.deepcopy(v), st)
        return ast.copy_location(ast.Expr(ast.copy_location(ast.Call(ast.copy_location(ast.Attribute(v, 'append', ast.Load()), st), [y], []), st)), st)

    def loops(self, st, comp, leaf):
        comp = copy.deepcopy(comp)
        table = {}
        for g in comp.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    self.n += 1
                    table[n.id] = '%s%%%d' % (n.id, self.n)
        # the first iterable is evaluated outside the scope of the comprehension
        first = comp.generators[0].iter
        comp = _Fresh(table).visit(comp)
        comp.generators[0].iter = first
        body = leaf(comp)
        for g in reversed(comp.generators):
            for c in reversed(g.ifs):
                body = ast.copy_location(ast.If(c, [body], []), st)
            body = ast.copy_location(ast.For(g.target, g.iter, [body], []), st)
        return body


MUTATORS = {'append', 'extend', 'insert', 'add', 'update', 'pop', 'popitem', 'remove', 'clear', 'discard', 'setdefault', 'sort', 'reverse'}


def no_context(e):
    return isinstance(e, ast.Call) and not e.args and not e.keywords and ast.unparse(e.func) in ('contextlib.nullcontext', 'nullcontext', 'contextlib.ExitStack', 'ExitStack')


def chosen_name(st):
    """t where t = a if c else b, or the statement that says so."""
    one = lambda b: len(b) == 1 and isinstance(b[0], ast.Assign) and len(b[0].targets) == 1 and isinstance(b[0].targets[0], ast.Name)  # noqa: E731
    if isinstance(st, ast.If) and one(st.body) and one(st.orelse) and st.body[0].targets[0].id == st.orelse[0].targets[0].id:
        return st.body[0].targets[0].id
    return st.targets[0].id if one([st]) and isinstance(st.value, ast.IfExp) else None


def entered(st, stack):
    """(condition, what, bound name) of an enter_context statement."""
    if isinstance(st, ast.If) and len(st.body) == 1 and not st.orelse:
        r = entered(st.body[0], stack)
        return (st.test, *r[1:]) if r and r[0] is None and r[2] is None else None
    v = st.targets[0] if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) else None
    if (isinstance(st, ast.Expr) or v is not None) and isinstance(st.value, ast.Call) and len(st.value.args) == 1 and not st.value.keywords and ast.unparse(st.value.func) == stack + '.enter_context':
        return None, st.value.args[0], v
    return None


def touches(st, name):
    """Whether a top-level statement assigns or updates the variable."""
    for n in ast.walk(st):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)):
            return True
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == name:
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
            return True
    return False


def pure(n):
    """An expression that names a place: evaluating it twice is evaluating it once."""
    return all(isinstance(x, (ast.Name, ast.Attribute, ast.Subscript, ast.Constant, ast.Tuple, ast.Load, ast.Store)) for x in ast.walk(n))


def setdefault(c):
    return isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'setdefault' and len(c.args) == 2 and not c.keywords \
        and pure(c.func.value) and not any(isinstance(x, ast.Starred) for x in c.args)


class _Place(ast.NodeTransformer):
    def __init__(self, name, place):
        self.name, self.place = name, place

    def visit_Name(self, n):
        return ast.copy_location(copy.deepcopy(self.place), n) if n.id == self.name else n


class Module:
    def __init__(self, name, path, relpath, src, rename=None):
        self.name, self.path, self.relpath, self.src = name, path, relpath, src
        self.tree = ast.parse(src, path)
        if rename:
            self.tree = _Rename(rename).visit(self.tree)
        unbind_methods(self.tree)
        _Blocks().visit(self.tree)
        ast.fix_missing_locations(self.tree)
        self.is_pkg = path.endswith('__init__.py')
        self.names = {}      # local name -> ('import', dotted) | ('func', FuncInfo) | ('class', ClassInfo) | ('assign', node)
        self.stars = []
        self._building = {}
        self.module_assigns = {}   # name -> list of value nodes
        self._collect(self.tree.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, ast.Import):
                for al in st.names:
                    if al.asname:
                        self.names[al.asname] = ('import', al.name)
                    else:
                        top = al.name.split('.')[0]
                        self.names[top] = ('import', top)
            elif isinstance(st, ast.ImportFrom):
                base = self.resolve_from(st)
                for al in st.names:
                    if al.name == '*':
                        self.stars.append(base)
                    else:
                        self.names[al.asname or al.name] = ('import', base + '.' + al.name)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.names[st.name] = ('func', FuncInfo(self.name + '.' + st.name, st, self))
            elif isinstance(st, ast.ClassDef):
                self.names[st.name] = ('class', self._class(st, self.name))
            elif isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                targets = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            if st.value is not None:
                                self.names[n.id] = ('assign', st.value)
                                self.module_assigns.setdefault(n.id, []).append(st.value)
            elif isinstance(st, ast.If):
                self._collect(st.body)
                self._collect(st.orelse)
            elif isinstance(st, ast.Try):
                for h in st.handlers:
                    self._collect(h.body)
                self._collect(st.body)
                self._collect(st.orelse)
                self._collect(st.finalbody)
            elif isinstance(st, ast.With):
                self._collect(st.body)

    def building(self, name):
        """The top-level statements that give a module variable its value, when it is more than one assignment."""
        if name not in self._building:
            out = [st for st in self.tree.body if not isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Try, ast.With)) and touches(st, name)]
            plain = len(out) == 1 and isinstance(out[0], (ast.Assign, ast.AnnAssign)) and all(isinstance(t, ast.Name) for t in getattr(out[0], 'targets', ()))
            self._building[name] = None if plain or not out else out
        return self._building[name]

    def resolve_from(self, st):
        if st.level == 0:
            return st.module or ''
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (st.level - 1)]
        return '.'.join(parts + ([st.module] if st.module else []))

    def _class(self, node, prefix):
        ci = ClassInfo(prefix + '.' + node.name, node, self)
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(ci.qual + '.' + st.name, st, self, cls=ci)
                if fi.is_setter:
                    ci.setters[st.name] = fi
                else:
                    ci.methods[st.name] = fi
            elif isinstance(st, ast.ClassDef):
                ci.nested[st.name] = self._class(st, ci.qual)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        ci.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                ci.attrs[st.target.id] = st.value
        return ci


class AnchorMissing(Exception):
    pass


class Project:
    def __init__(self, root, overrides=None, rename=None, moved=None):
        self.root = root
        self.moved = moved or {}       # where it is now -> where it was in the reference
        self.was = {v: k for k, v in self.moved.items()}
        self.modules = {}
        self.errors = []
        overrides = overrides or {}
        base = os.path.join(root, PKG)
        for dp, dn, fn in sorted(os.walk(base)):
            dn.sort()
            for f in sorted(fn):
                if not f.endswith('.py') or f.endswith(SKIP_SUFFIX) or f in SKIP_FILES:
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)
                src = overrides.get(rel)
                if src is None:
                    with open(p, encoding='utf-8') as fh:
                        src = fh.read()
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-len('.__init__')]
                self.modules[name] = load_module(name, p, rel, src, rename, self.moved)
        self._mro = {}
        self._subs = None
        for m in self.modules.values():
            for c in self._all_classes(m):
                self._class_bases(c)

    # -- enumeration
    def _all_classes(self, m):
        def rec(c):
            yield c
            for n in c.nested.values():
                yield from rec(n)
        for k, v in m.names.items():
            if v[0] == 'class':
                yield from rec(v[1])

    def classes(self):
        for m in self.modules.values():
            yield from self._all_classes(m)

    def functions(self):
        """All module-level functions and methods."""
        for m in self.modules.values():
            for k, v in m.names.items():
                if v[0] == 'func':
                    yield v[1]
            for c in self._all_classes(m):
                yield from c.methods.values()
                yield from c.setters.values()

    # -- name resolution
    def lookup(self, dotted, _seen=()):
        """dotted -> ('func', FuncInfo)|('class', ClassInfo)|('module', Module)|('assign', node, mod)|('ext', dotted)."""
        if dotted in _seen:
            return ('ext', dotted)
        if dotted in self.modules:
            return ('module', self.modules[dotted])
        parts = dotted.split('.')
        if self.was:
            for i in range(len(parts), 1, -1):
                q = self.was.get('.'.join(parts[:i]))
                if q:
                    return self.lookup('.'.join([q] + parts[i:]), _seen + (dotted,))
        for i in range(len(parts) - 1, 0, -1):
            mn = '.'.join(parts[:i])
            if mn in self.modules:
                r = self._lookup_in(self.modules[mn], parts[i:], _seen + (dotted,))
                if r is not None:
                    return r
                return ('ext', dotted)
        return ('ext', dotted)

    def _lookup_in(self, mod, parts, seen):
        head, rest = parts[0], parts[1:]
        ent = mod.names.get(head)
        if ent is None:
            for s in mod.stars:
                if s in self.modules:
                    r = self._lookup_in(self.modules[s], parts, seen)
                    if r is not None:
                        return r
            return None
        if ent[0] == 'import':
            return self.lookup('.'.join([ent[1]] + rest), seen)
        if ent[0] == 'func':
            return ('func', ent[1]) if not rest else None
        if ent[0] == 'class':
            return self._in_class(ent[1], rest)
        if ent[0] == 'assign':
            if isinstance(ent[1], (ast.Name, ast.Attribute)):
                d = self.dotted(mod, ent[1])
                if isinstance(ent[1], ast.Name) and ent[1].id in BUILTINS:
                    # a builtin given another name before a definition takes its name
                    later = mod.names.get(ent[1].id)
                    if later and later[0] in ('func', 'class') and later[1].node.lineno > ent[1].lineno:
                        d = 'builtins.' + ent[1].id
                if d:
                    r = self.lookup('.'.join([d] + rest), seen)
                    return r
            if rest:
                return None
            return ('assign', ent[1], mod, mod.name + '.' + head)
        return None

    def _in_class(self, c, rest):
        if not rest:
            return ('class', c)
        h = rest[0]
        if h in c.nested:
            return self._in_class(c.nested[h], rest[1:])
        for k in self.mro(c):
            if isinstance(k, ClassInfo):
                if h in k.methods and len(rest) == 1:
                    return ('func', k.methods[h])
                if h in k.attrs and len(rest) == 1:
                    return ('classattr', k, h, k.attrs[h])
        return None

    def dotted(self, mod, node):
        """Canonical dotted name of a Name/Attribute chain at module scope, or None."""
        if isinstance(node, ast.Name):
            ent = mod.names.get(node.id)
            if ent is None:
                for s in mod.stars:
                    if s in self.modules and self._lookup_in(self.modules[s], [node.id], ()) is not None:
                        return self.canon(s + '.' + node.id)
                if node.id in BUILTINS:
                    return 'builtins.' + node.id
                return None
            if ent[0] == 'import':
                return self.canon(ent[1])
            return self.canon(mod.name + '.' + node.id)
        if isinstance(node, ast.Attribute):
            b = self.dotted(mod, node.value)
            return None if b is None else self.canon(b + '.' + node.attr)
        return None

    def canon(self, dotted):
        r = self.lookup(dotted)
        if r[0] in ('func', 'class'):
            return r[1].qual
        if r[0] == 'module':
            return r[1].name
        if r[0] == 'assign':
            return self.moved.get(r[3], r[3])
        if r[0] == 'classattr':
            return r[1].qual + '.' + r[2]
        return r[1]

    # -- classes
    def _class_bases(self, c):
        if c.base_names:
            return
        for b in c.node.bases:
            d = self.dotted(c.mod, b)
            if d is None and isinstance(b, ast.Name):
                # nested sibling
                d = None
            c.base_names.append(d or ('?' + ast.unparse(b)))
            if isinstance(b, ast.Call):
                f = self.dotted(c.mod, b.func) or ''
                if f.endswith('namedtuple') or f.endswith('NamedTuple') or f.endswith('TypedNamedTuple'):
                    c.nt_fields = nt_fields(b)
        # assigned namedtuples used as bases
        for b in c.node.bases:
            d = self.dotted(c.mod, b)
            if d:
                r = self.lookup(d)
                if r[0] == 'assign' and isinstance(r[1], ast.Call):
                    c.nt_fields = nt_fields(r[1])
        if any((b or '').endswith('NamedTuple') for b in c.base_names):
            c.nt_fields = [(k, v) for k, v in c.attrs.items()]
        if any('dataclass' in ast.unparse(d) for d in c.node.decorator_list):
            c.nt_fields = [(k, v) for k, v in c.attrs.items()]

    def mro(self, c):
        if c.qual in self._mro:
            return self._mro[c.qual]
        self._mro[c.qual] = [c]
        out = [c]
        for b in c.base_names:
            r = self.lookup(b) if not b.startswith('?') else ('ext', b)
            if r[0] == 'class':
                for x in self.mro(r[1]):
                    if x not in out:
                        out.append(x)
            else:
                out.append(b)
        self._mro[c.qual] = out
        return out

    def is_subclass(self, c, qual):
        return any((x.qual if isinstance(x, ClassInfo) else x) == qual for x in self.mro(c))

    def subclasses(self, qual):
        return [c for c in self.classes() if c.qual != qual and self.is_subclass(c, qual)]

    def method(self, c, name):
        for k in self.mro(c):
            if isinstance(k, ClassInfo) and name in k.methods:
                return k.methods[name]
        return None

    def fields(self, c):
        for k in self.mro(c):
            if isinstance(k, ClassInfo) and k.nt_fields is not None:
                return k.nt_fields
        return None

    def record(self, qual):
        """Field names of a record type, declared as a class or by a namedtuple call."""
        r = self.lookup(qual)
        if r[0] == 'class':
            f = self.fields(r[1])
        elif r[0] == 'assign' and isinstance(r[1], ast.Call) and (self.dotted(r[2], r[1].func) or '').lower().endswith('namedtuple'):
            f = nt_fields(r[1])
        else:
            f = None
        return [x for x, _ in f] if f else None

    # -- anchors
    def func(self, qual):
        q = qual if qual.startswith(PKG) else PKG + '.' + qual
        r = self.lookup(q)
        if r[0] != 'func':
            raise AnchorMissing('function %s not found' % q)
        return r[1]

    def cls(self, qual):
        q = qual if qual.startswith(PKG) else PKG + '.' + qual
        r = self.lookup(q)
        if r[0] != 'class':
            raise AnchorMissing('class %s not found' % q)
        return r[1]

    def has(self, qual):
        q = qual if qual.startswith(PKG) else PKG + '.' + qual
        return self.lookup(q)[0] in ('func', 'class')


_mod_cache = {}


def relabel(d, old, new):
    """Gives a moved definition the name it has in the reference."""
    d.qual = new + d.qual[len(old):]
    if isinstance(d, ClassInfo):
        for x in list(d.methods.values()) + list(d.setters.values()) + list(d.nested.values()):
            relabel(x, old, new)


def load_module(name, p, rel, src, rename=None, moved=None):
    moved = {k: v for k, v in (moved or {}).items() if k.rsplit('.', 1)[0] == name}
    if rename:
        rename = {k: v for k, v in rename.items() if re.search(r'\b%s\b' % re.escape(k), src)}
    key = (name, src, tuple(sorted((rename or {}).items())), tuple(sorted(moved.items())))
    m = _mod_cache.get(key)
    if m is None:
        m = Module(name, p, rel, src, rename)
        for k, v in moved.items():
            d = m.names.get(k.rsplit('.', 1)[1])
            if d is not None and d[0] in ('func', 'class'):
                relabel(d[1], k, v)
        _mod_cache[key] = m
    for c in list(m.names.values()):
        if c[0] == 'class':
            c[1].base_names = []
    return m


def nt_fields(call):
    args = call.args[1:] if call.args else []
    out = []
    if args:
        a = args[0]
        if isinstance(a, (ast.List, ast.Tuple)):
            for e in a.elts:
                if isinstance(e, ast.Constant):
                    out.append((e.value, None))
                elif isinstance(e, (ast.Tuple, ast.List)) and e.elts and isinstance(e.elts[0], ast.Constant):
                    out.append((e.elts[0].value, None))
        elif isinstance(a, ast.Constant) and isinstance(a.value, str):
            out = [(x, None) for x in a.value.replace(',', ' ').split()]
    return out
