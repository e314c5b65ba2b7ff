"""Hash-consed value-graph terms (global value numbering over gated SSA).

A term describes where a value comes from, independent of local names,
statement order and helper boundaries.  Equal terms are the same object.
"""
import itertools


class T:
    __slots__ = ('op', 'a', 'n', '_size')
    _table = {}
    _count = itertools.count()

    def __new__(cls, op, *a):
        key = (op, a)
        t = cls._table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.a = a
            t.n = next(cls._count)
            cls._table[key] = t
        return t

    def __hash__(self):
        return self.n

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.n < other.n

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        return (T, (self.op,) + self.a)


class K:
    """Constant wrapper distinguishing 1/True/1.0."""
    __slots__ = ('v', 'k')

    def __init__(self, v):
        self.v = v
        self.k = (type(v).__name__, repr(v))

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return isinstance(o, K) and self.k == o.k

    def __repr__(self):
        return repr(self.v)


def const(v):
    return T('const', K(v))


TRUE = const(True)
FALSE = const(False)
NONE = const(None)


def is_const(t, v=...):
    if not isinstance(t, T) or t.op != 'const':
        return False
    return True if v is ... else (t.a[0] == K(v))


def cval(t):
    return t.a[0].v


def glob(name):
    return T('global', name)


def param(name):
    return T('param', name)


def attr(b, name):
    if b.op == 'global':
        return T('global', b.a[0] + '.' + name)
    return T('attr', b, name)


def kids(t):
    """Direct sub-terms."""
    out = []

    def rec(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                rec(y)
    for x in t.a:
        rec(x)
    return out


def walk(*ts):
    seen = set()
    stack = [t for t in ts if isinstance(t, T)]
    while stack:
        t = stack.pop()
        if t.n in seen:
            continue
        seen.add(t.n)
        yield t
        stack.extend(kids(t))


def size(t):
    return sum(1 for _ in walk(t))


def subst(t, m, memo=None):
    """Replace sub-terms per mapping m (T->T), re-canonicalising nothing."""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t.n in memo:
        return memo[t.n]

    def rec(x):
        if isinstance(x, T):
            return subst(x, m, memo)
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        return x
    r = T(t.op, *[rec(x) for x in t.a])
    memo[t.n] = r
    return r


def restrict(t, atom, val, memo=None):
    """The term in the case that a condition atom holds (or does not)."""
    if memo is None:
        memo = {}
    if t.n in memo:
        return memo[t.n]
    c = TRUE if val else FALSE
    boolean = atom.op in ('eq', 'is', 'in', 'lt', 'any')

    def cond(x):
        if x is atom:
            return c
        if x.op == 'and':
            return mk_and(*[cond(y) for y in x.a])
        if x.op == 'or':
            return mk_or(*[cond(y) for y in x.a])
        if x.op == 'not':
            return mk_not(cond(x.a[0]))
        if x.op == 'le':
            if T('lt', x.a[1], x.a[0]) is atom:
                return mk_not(c)
            return T('le', rec(x.a[0]), rec(x.a[1]))
        return restrict(x, atom, val, memo)

    def part(p):
        return tuple(x if not isinstance(x, (T, tuple)) else part(x) if isinstance(x, tuple) else
                     cond(x) if i == len(p) - 1 and p[0] in ('many', 'manykv', 'manysplat') else restrict(x, atom, val, memo)
                     for i, x in enumerate(p))

    def rec(x):
        if isinstance(x, T):
            return restrict(x, atom, val, memo)
        return tuple(rec(y) for y in x) if isinstance(x, tuple) else x
    if t is atom and boolean:
        r = c
    elif t.op in ('and', 'or', 'not', 'le'):
        r = cond(t)
    elif t.op == 'phi':
        r = mk_phi(cond(t.a[0]), rec(t.a[1]), rec(t.a[2]))
    elif t.op in ('seq', 'setof', 'map') and t.a:
        ps = [part(p) for p in t.a[0]]
        r = T(t.op, tuple(settled(p) for p in ps if not (p[0] in ('many', 'manykv', 'manysplat') and p[-1] is FALSE)), *[rec(x) for x in t.a[1:]])
    elif t.op == 'any':
        r = mk_any(cond(t.a[0]), rec(t.a[1]))
    elif t.op == 'in':
        x, c2 = rec(t.a[0]), rec(t.a[1])
        r = FALSE if c2.op in ('seq', 'setof', 'map') and not c2.a[0] or c2.op == 'tup' and not c2.a else T('in', x, c2)
    else:
        r = T(t.op, *[rec(x) for x in t.a]) if t.a else t
    memo[t.n] = r
    return r


# ---- logic -----------------------------------------------------------------

def mk_not(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.a[0]
    if t.op == 'and':
        return mk_or(*[mk_not(x) for x in t.a])
    if t.op == 'or':
        return mk_and(*[mk_not(x) for x in t.a])
    if t.op == 'lt':
        return mk_le(t.a[1], t.a[0])
    if t.op == 'le':
        return mk_lt(t.a[1], t.a[0])
    if t.op == 'phi':
        return mk_phi(t.a[0], mk_not(t.a[1]), mk_not(t.a[2]))
    return T('not', t)


def mk_lt(a, b):
    # integers: x < 1 over len() is handled by truth(); keep others as is
    a, b = undifference(a, b)
    return T('lt', a, b)


def undifference(a, b):
    """0 against x - y is y against x."""
    if b.op == 'bin' and b.a[0] == '-' and is_const(a, 0):
        return b.a[2], b.a[1]
    if a.op == 'bin' and a.a[0] == '-' and is_const(b, 0):
        return a.a[1], a.a[2]
    return a, b


def mk_le(a, b):
    a, b = undifference(a, b)
    return T('le', a, b)


def mk_and(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in (x.a if x.op == 'and' else (x,)):
            if y not in out:
                out.append(y)
    for y in out:
        if mk_neg_simple(y) in out:
            return FALSE
    if not out:
        return TRUE
    # absorption: (a or b) and a -> a
    res = []
    s = set(out)
    for y in out:
        if y.op == 'or' and any(z in s for z in y.a):
            continue
        if y.op == 'or':
            # (not a or b) and a  -> b and a
            rest = [z for z in y.a if mk_neg_simple(z) not in s]
            if len(rest) != len(y.a):
                return mk_and(*[z for z in out if z is not y], mk_or(*rest))
        res.append(y)
    if len(res) == 1:
        return res[0]
    return T('and', *sorted(res))


def mk_any(g, iters):
    """Some iteration satisfies g; conjuncts that do not depend on the iteration are hoisted."""
    if g is FALSE:
        return FALSE
    if not iters:
        return g
    if g.op == 'or':
        return mk_or(*[mk_any(x, iters) for x in g.a])
    if len(iters) == 1 and iters[0].op == 'phi':
        # one collection or another
        c, x, y = iters[0].a
        e, i = T('elem', iters[0]), T('index', (iters[0],))
        gx, gy = (subst(g, {e: T('elem', z), i: T('index', (z,))}) for z in (x, y))
        return mk_or(mk_and(c, mk_any(gx, (x,))), mk_and(mk_not(c), mk_any(gy, (y,))))
    dep = set()
    for it in iters:
        dep.add(T('elem', it))
        dep.add(T('index', (it,)))
    special = any(it.op in ('while', 'until', 'zip', 'its') for it in iters)
    parts = g.a if g.op == 'and' else (g,)
    ins, outs = [], []
    for p in parts:
        d = special or any(x in dep or x.op in ('carried', 'zip') or (x.op in ('elem', 'index')) for x in walk(p))
        (ins if d else outs).append(p)
    if len(ins) == 1 and len(iters) == 1 and not special and ins[0].op in ('eq', 'is'):
        # any(x == y for y in xs) is x in xs
        el = T('elem', iters[0])
        x, y = ins[0].a
        if (x is el or y is el) and x is not y and el not in set(walk(y if x is el else x)):
            return mk_and(*outs, T('in', y if x is el else x, iters[0]))
    return mk_and(*outs, T('any', mk_and(*ins), tuple(iters)))


def simp_cond(g, c, val):
    """Simplify g knowing that condition c has truth value val."""
    known = {}
    def learn(x, v):
        known[x] = v
        known[mk_neg_simple(x)] = not v
        if x.op == 'and' and v or x.op == 'or' and not v:
            for y in x.a:
                learn(y, v)
        if x.op == 'not':
            learn(x.a[0], not v) if x.a[0] not in known else None
    learn(c, val)

    def rec(x):
        if x in known:
            return TRUE if known[x] else FALSE
        if x.op == 'and':
            return mk_and(*[rec(y) for y in x.a])
        if x.op == 'or':
            return mk_or(*[rec(y) for y in x.a])
        if x.op == 'not':
            return mk_not(rec(x.a[0]))
        return x
    return rec(g)


def mk_neg_simple(y):
    if y.op == 'not':
        return y.a[0]
    if y.op == 'lt':
        return mk_le(y.a[1], y.a[0])
    if y.op == 'le':
        return mk_lt(y.a[1], y.a[0])
    return T('not', y)


def mk_or(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        for y in (x.a if x.op == 'or' else (x,)):
            if y not in out:
                out.append(y)
    for y in out:
        if mk_neg_simple(y) in out:
            return TRUE
    if not out:
        return FALSE
    res = []
    s = set(out)
    for y in out:
        if y.op == 'and' and any(z in s for z in y.a):
            continue
        if y.op == 'and':
            rest = [z for z in y.a if mk_neg_simple(z) not in s]
            if len(rest) != len(y.a):
                return mk_or(*[z for z in out if z is not y], mk_and(*rest))
        res.append(y)
    # factor (a and b) or (a and not b) -> a
    if len(res) == 2 and all(r.op == 'and' for r in res):
        s0, s1 = set(res[0].a), set(res[1].a)
        common = s0 & s1
        d0, d1 = s0 - common, s1 - common
        if len(d0) == 1 and len(d1) == 1 and mk_neg_simple(next(iter(d0))) is next(iter(d1)):
            return mk_and(*sorted(common))
    if len(res) == 1:
        return res[0]
    return T('or', *sorted(res))


def outcomes(t):
    return outcomes(t.a[1]) + outcomes(t.a[2]) if t.op == 'phi' else [t]


def mk_phi(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return mk_phi(c.a[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return mk_not(c)
    if a is NONE and c.op == 'is' and c.a[1] is NONE and c.a[0] is b:
        return b
    # nested phi on same condition
    a = cofactor(a, c, True)
    b = cofactor(b, c, False)
    if a is b:
        return a
    if a.op == b.op and a.op in ('seq', 'setof', 'map'):
        # one is the other with elements added: they are there under the condition
        x, y = a.a[0], b.a[0]
        if len(x) > len(y) and x[:len(y)] == y:
            return T(a.op, y + tuple(under(p, c) for p in x[len(y):]))
        if len(y) > len(x) and y[:len(x)] == x:
            return T(a.op, x + tuple(under(p, mk_not(c)) for p in y[len(x):]))
    for x, y, g in ((a, b, c), (b, a, mk_not(c))):
        # a copy with more elements, or the thing itself
        if x.op in ('seq', 'setof', 'map') and len(x.a[0]) > 1 and x.a[0][0] == ('splat', y) and y.op in ('call', 'attr', 'sub', 'param'):
            return T(x.op, (('splat', y),) + tuple(under(p, g) for p in x.a[0][1:]))
        if x.op == 'seq' and len(x.a[0]) > 1 and x.a[0][-1] == ('splat', y) and y.op in ('call', 'attr', 'sub', 'param'):
            return T(x.op, tuple(under(p, g) for p in x.a[0][:-1]) + (('splat', y),))
    return T('phi', c, a, b)


def under(p, g):
    """A part of a display that is there only if g holds."""
    k = p[0]
    if k == 'item':
        return ('many', p[1], (), g)
    if k == 'splat':
        return ('manysplat', p[1], (), g)
    if k == 'kv':
        return ('manykv', p[1], p[2], (), g)
    return p[:-1] + (mk_and(g, p[-1]),)


def settled(p):
    """A conditional part whose condition is known to hold."""
    if p[0] in ('many', 'manykv', 'manysplat') and p[-2] == () and p[-1] is TRUE:
        return {'many': 'item', 'manykv': 'kv', 'manysplat': 'splat'}[p[0]], *p[1:-2]
    return p


def cond_part(p):
    """A part that iterates over nothing: there if its condition holds."""
    if p[-2] == ():
        if p[-1] is FALSE:
            return None
        if p[-1] is TRUE:
            return ('item', p[1]) if p[0] == 'many' else ('kv', p[1], p[2])
    return p


# (function, parameter) -> default value, for arguments left out because they equal it
DEFAULTS = {}


def cofactor(t, c, val, depth=6):
    """Simplify the phi chain of t knowing condition c == val."""
    if t.op == 'phi' and depth:
        if t.a[0] is c:
            return cofactor(t.a[1] if val else t.a[2], c, val, depth - 1)
        g = simp_cond(t.a[0], c, val)
        a, b = cofactor(t.a[1], c, val, depth - 1), cofactor(t.a[2], c, val, depth - 1)
        if g is not t.a[0] or a is not t.a[1] or b is not t.a[2]:
            return mk_phi(g, a, b)
    return t


def mk_eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return const(cval(a) == cval(b))
    if a is NONE or b is NONE:
        return mk_is(a, b)
    if b.n < a.n:
        a, b = b, a
    return T('eq', a, b)


def nonnull(t):
    """A value that is certainly not None."""
    if t.op in ('seq', 'map', 'setof', 'tup', 'concat', 'closure', 'lam', 'partial', 'index', 'bin', 'lt', 'le', 'eq', 'is', 'in', 'not', 'any'):
        return True
    if t.op == 'const':
        return cval(t) is not None
    if t.op == 'sub' and t.a[0].op == 'map':
        return bool(t.a[0].a[0]) and all(p[0] in ('kv', 'manykv') and nonnull(p[2]) for p in t.a[0].a[0])
    return False


def mk_is(a, b):
    if is_const(a, None) and not is_const(b, None):
        a, b = b, a
    if is_const(b, None):
        if is_const(a):
            return const(cval(a) is None)
        if nonnull(a):
            return FALSE
        if a.op == 'phi':
            return mk_phi(a.a[0], mk_is(a.a[1], b), mk_is(a.a[2], b))
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == 'phi' and all(l.op != 'phi' for l in x.a[1:]):
            return mk_phi(x.a[0], mk_is(x.a[1], y), mk_is(x.a[2], y))
    if b.n < a.n and not is_const(b, None):
        a, b = b, a
    return T('is', a, b)


def setlike(t):
    return t.op == 'setof' or t.op == 'call' and t.a[0].op == 'global' and t.a[0].a[0] in ('builtins.set', 'builtins.frozenset')


def members(t):
    while t.op == 'call' and t.a[0].op == 'global' and t.a[0].a[0] in ('builtins.set', 'builtins.frozenset') and len(t.a[1]) == 1:
        t = t.a[1][0][1]
    return t


def left_over(x, y):
    """Whether x has members that y does not have."""
    x, y = members(x), members(y)
    if y.op == 'phi':
        c, p, q = y.a
        return mk_or(mk_and(c, left_over(x, p)), mk_and(mk_not(c), left_over(x, q)))
    z = members(y.a[1][0][1]) if y.op == 'call' and y.a[0].op == 'global' and y.a[0].a[0] == 'builtins.sorted' else y
    if z is x:
        return FALSE
    return T('bin', '-', x, y)


def in_both(x, y):
    x, y = sorted((members(x), members(y)), key=lambda t: t.n)
    return T('bin', '&', x, y)


def truth(t):
    """Canonical boolean (guard) view of a value."""
    if t.op == 'const':
        return const(bool(cval(t)))
    if t.op == 'not':
        return mk_not(truth(t.a[0]))
    if t.op == 'and':
        return mk_and(*[truth(x) for x in t.a])
    if t.op == 'or':
        return mk_or(*[truth(x) for x in t.a])
    if t.op == 'boolop':
        f = mk_and if t.a[0] == 'and' else mk_or
        return f(*[truth(x) for x in t.a[1:]])
    if t.op == 'phi':
        a, b = truth(t.a[1]), truth(t.a[2])
        c = t.a[0]
        return mk_or(mk_and(c, a), mk_and(mk_not(c), b))
    if t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in ('issubset', 'issuperset', 'isdisjoint', 'difference', 'intersection') and len(t.a[1]) == 1 and t.a[1][0][0] == 0:
        x, y, n = t.a[0].a[0], t.a[1][0][1], t.a[0].a[1]
        if n in ('issubset', 'issuperset'):
            return mk_not(left_over(x, y) if n == 'issubset' else left_over(y, x))
        if n == 'isdisjoint':
            return mk_not(in_both(x, y))
        return left_over(x, y) if n == 'difference' else in_both(x, y)
    if t.op == 'bin' and t.a[0] in ('-', '&') and (setlike(t.a[1]) or setlike(t.a[2])):
        return (left_over if t.a[0] == '-' else in_both)(t.a[1], t.a[2])
    if t.op == 'call':
        f = t.a[0]
        if f.op in ('attr', 'global') and f.a[-1].rsplit('.', 1)[-1] in ('match', 'fullmatch', 'search'):
            # a match object is true, and there is one or None
            return mk_not(mk_is(t, NONE))
        if f.op == 'global':
            n = f.a[0]
            if n == 'builtins.bool' and len(t.a[1]) == 1:
                return truth(t.a[1][0][1])
            if n == 'builtins.len' and len(t.a[1]) == 1:
                return truth(t.a[1][0][1])
            if n == 'builtins.isinstance' and len(t.a[1]) == 2:
                x, cl = t.a[1][0][1], t.a[1][1][1]
                if cl.op == 'tup':
                    return mk_or(*[T('call', f, ((0, x), (1, c))) for c in cl.a])
    if t.op in ('seq', 'map', 'setof', 'tup'):
        parts = t.a[0] if t.op != 'tup' else t.a
        if not parts:
            return FALSE
        if t.op == 'tup' or any(p[0] in ('item', 'kv') for p in parts):
            return TRUE
    if t.op == 'eq':
        for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
            lx = len_arg(x)
            if lx is not None and is_const(y, 0):
                return mk_not(truth(lx))
    if t.op == 'lt':
        lx = len_arg(t.a[0])
        if lx is not None and is_const(t.a[1], 1):
            return mk_not(truth(lx))
        lx = len_arg(t.a[1])
        if lx is not None and is_const(t.a[0], 0):
            return truth(lx)
    if t.op == 'le':
        lx = len_arg(t.a[0])
        if lx is not None and is_const(t.a[1], 0):
            return mk_not(truth(lx))
        lx = len_arg(t.a[1])
        if lx is not None and is_const(t.a[0], 1):
            return truth(lx)
    return t


def len_arg(t):
    if t.op == 'call' and t.a[0].op == 'global' and t.a[0].a[0] == 'builtins.len' and len(t.a[1]) == 1:
        return t.a[1][0][1]
    return None


BOOL_OPS = {'not', 'and', 'or', 'eq', 'lt', 'le', 'is', 'in', 'any', 'all'}


def is_bool(t):
    if t.op in BOOL_OPS:
        return True
    if t.op == 'const':
        return isinstance(cval(t), bool)
    if t.op == 'call' and t.a[0].op == 'global' and t.a[0].a[0] in ('builtins.isinstance', 'builtins.hasattr', 'builtins.callable', 'builtins.issubclass'):
        return True
    return False


# ---- printing --------------------------------------------------------------

def show(t, depth=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth) for x in t) + ')'
        return str(t)
    if depth <= 0:
        return '…'
    d = depth - 1
    o, a = t.op, t.a
    if o == 'const':
        return repr(cval(t))
    if o == 'param':
        return a[0]
    if o == 'global':
        return a[0].replace('tensorflow_transform', 'tft').replace('tensorflow', 'tf').replace('builtins.', '')
    if o == 'attr':
        return show(a[0], d) + '.' + a[1]
    if o == 'call':
        return show(a[0], d) + '(' + ', '.join(
            (show(v, d) if isinstance(k, int) else '%s=%s' % (k, show(v, d))) for k, v in a[1]) + ')'
    if o == 'sub':
        return show(a[0], d) + '[' + show(a[1], d) + ']'
    if o == 'bin':
        return '(' + show(a[1], d) + ' ' + a[0] + ' ' + show(a[2], d) + ')'
    if o in ('lt', 'le', 'eq', 'is', 'in'):
        s = {'lt': '<', 'le': '<=', 'eq': '==', 'is': 'is', 'in': 'in'}[o]
        return '(' + show(a[0], d) + ' ' + s + ' ' + show(a[1], d) + ')'
    if o in ('and', 'or'):
        return '(' + (' ' + o + ' ').join(show(x, d) for x in a) + ')'
    if o == 'not':
        return 'not ' + show(a[0], d)
    if o == 'phi':
        return '{' + show(a[0], d) + ' ? ' + show(a[1], d) + ' : ' + show(a[2], d) + '}'
    if o == 'elem':
        return 'elem<' + show(a[0], d) + '>'
    if o == 'index':
        return 'idx<' + show(a[0], d) + '>'
    if o == 'tup':
        return '(' + ', '.join(show(x, d) for x in a) + ')'
    if o in ('seq', 'setof', 'map'):
        br = {'seq': '[]', 'setof': '{}', 'map': '{}'}[o]
        ps = []
        for p in a[0]:
            if p[0] == 'item':
                ps.append(show(p[1], d))
            elif p[0] == 'splat':
                ps.append('*' + show(p[1], d))
            elif p[0] == 'kv':
                ps.append(show(p[1], d) + ': ' + show(p[2], d))
            elif p[0] == 'many':
                ps.append(show(p[1], d) + ' for ' + ','.join(show(x, d) for x in p[2]) + (' if ' + show(p[3], d) if p[3] is not TRUE else ''))
            elif p[0] == 'manykv':
                ps.append(show(p[1], d) + ': ' + show(p[2], d) + ' for ' + ','.join(show(x, d) for x in p[3]) + (' if ' + show(p[4], d) if p[4] is not TRUE else ''))
            else:
                ps.append(str(p[0]) + ':' + ','.join(show(x, d) for x in p[1:]))
        return br[0] + ', '.join(ps) + br[1]
    if o == 'concat':
        return 'f"' + ''.join(str(cval(x)) if is_const(x) else '{' + show(x, d) + '}' for x in a) + '"'
    if o == 'closure':
        return 'λ' + str(a[0])
    return o + '(' + ', '.join(show(x, d) for x in a) + ')'
