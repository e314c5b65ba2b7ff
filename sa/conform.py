"""Conformance of the current tree to the confirmed reference mechanism.

For every function of the reference tree the observable facts (value graph of
the result, conditions under which each exception type is raised, stores to
state that outlives the call, externally visible calls, context managers in
force, cleanup regions, relative order of conflicting effects, declarations)
are derived by the same value-numbering dataflow from the reference source and
from /repo's current source and compared.  Helper extraction/inlining, renames,
statement order, branch orientation and loop/comprehension form disappear in
the normal form.  What remains different is classified:

* decisive  - one fact of the mechanism is provably a different one: a
  condition that is not equivalent, a constant, operand, attribute, callee or
  argument that is another one, an operation or effect that disappeared, an
  effect that left its cleanup region or changed order with a conflicting one;
* undecided - the two forms are structurally unrelated (a rewrite the analysis
  cannot relate).  Undecided facts are counted in the evidence and never alarm.
"""
import ast
import collections
import itertools
import math
import random

from .interp import Analyzer, Frame, callee_is, MUT_ANY, own_params, LIBSIGS
from .project import FuncInfo, ClassInfo, PKG
from . import terms as tm
from .terms import *

OPAQUE = {'loop', 'carried', 'mut', 'opaque', 'unbound', 'while', 'until', 'zip', 'selfref', 'localclass', 'cmp', 'its', 'caught', 'exc'}
NEUTRAL_WRAP = {'builtins.list', 'builtins.tuple', 'builtins.iter', 'builtins.dict', 'builtins.str', 'builtins.bool', 'builtins.int', 'builtins.float',
                'copy.copy', 'typing.cast', 'builtins.enumerate', 'builtins.zip'}
NEUTRAL_ADD = {'builtins.sorted', 'builtins.frozenset', 'builtins.set', 'tensorflow.identity', 'numpy.asarray', 'tensorflow.convert_to_tensor', 'copy.deepcopy'}
LOGGERS = ('absl.logging.', 'logging.', 'warnings.', 'tensorflow.compat.v1.logging.', 'builtins.print')
NAME_SCOPES = ('.name_scope', '.variable_scope')
SIDE_EFFECT = ('.gfile.', 'os.', 'shutil.', 'tensorflow.io.write_graph')
SIDE_METHODS = {'save', 'write', 'close', 'add_meta_graph', 'add_meta_graph_and_variables', 'append', 'finish', 'restore', 'initialize',
                'reset', 'setup', 'join', 'run', 'update', 'clear', 'add_to_collection', 'add_to_collections', 'CopyFrom', 'MergeFrom',
                'SerializeToString', 'ClearField', 'extend', 'add', 'pop', 'set_shape'}


class Diff:
    __slots__ = ('what', 'a', 'b', 'dec')

    def __init__(self, what, a, b, dec):
        self.what, self.a, self.b, self.dec = what, a, b, dec

    def __repr__(self):
        def s(x):
            return show(x, 5) if isinstance(x, T) else str(x)
        return '%s%s: reference %s, found %s' % ('' if self.dec else '(undecided) ', self.what, s(self.a)[:300], s(self.b)[:300])


# ------------------------------------------------------------------ conditions

def message(f):
    """Whether the callee is a message class of some protocol."""
    while f.op == 'attr':
        f = f.a[0]
    return f.op == 'global' and '_pb2' in f.a[0]


def atoms_of(t, out):
    if t.op in ('and', 'or', 'not'):
        for x in t.a:
            atoms_of(x, out)
    elif t.op == 'le':
        atoms_of(T('lt', t.a[1], t.a[0]), out)
    elif t.op == 'phi':
        atoms_of(t.a[0], out)
        atoms_of(truth(t.a[1]), out)
        atoms_of(truth(t.a[2]), out)
    elif t.op == 'const':
        pass
    else:
        out.setdefault(t, None)
    return out


def constraints(atoms):
    """Pairs of atoms that cannot both hold."""
    excl = []
    for x, y in itertools.combinations(atoms, 2):
        if x.op == 'eq' and y.op == 'eq':
            for a in x.a:
                for b in y.a:
                    if a is b:
                        ox = x.a[0] if x.a[1] is a else x.a[1]
                        oy = y.a[0] if y.a[1] is b else y.a[1]
                        if is_const(ox) and is_const(oy) and ox is not oy:
                            excl.append((x, y))
                        elif (ox.op == 'global' and oy.op == 'global' and ox is not oy):
                            excl.append((x, y))
        for p, q in ((x, y), (y, x)):
            if p.op == 'is' and is_const(p.a[1], None):
                if q is p.a[0]:
                    excl.append((p, q))
                if q.op == 'call' and callee_is(q, 'builtins.isinstance') and q.a[1][0][1] is p.a[0]:
                    excl.append((p, q))
                if q.op == 'in' and q.a[1] is p.a[0]:
                    excl.append((p, q))
        if x.op == 'lt' and y.op == 'lt' and x.a[0] is y.a[1] and x.a[1] is y.a[0]:
            excl.append((x, y))
        if x.op == 'call' and y.op == 'call' and callee_is(x, 'builtins.isinstance') and callee_is(y, 'builtins.isinstance') and x.a[1][0][1] is y.a[1][0][1]:
            p, q = x.a[1][1][1], y.a[1][1][1]
            if p.op == q.op == 'global' and p is not q and any(p.a[0] in fam and q.a[0] in fam for fam in DISJOINT):
                excl.append((x, y))
    return excl


# classes no value is an instance of two of
DISJOINT = [{'tensorflow.Tensor', 'tensorflow.python.framework.composite_tensor.CompositeTensor'},
            {'tensorflow.Tensor', 'tensorflow.SparseTensor', 'tensorflow.RaggedTensor', 'tensorflow.compat.v1.SparseTensor'},
            {'tensorflow.TensorSpec', 'tensorflow.SparseTensorSpec', 'tensorflow.RaggedTensorSpec'},
            {'tensorflow.io.FixedLenFeature', 'tensorflow.io.VarLenFeature', 'tensorflow.io.SparseFeature', 'tensorflow.io.RaggedFeature'},
            {'tensorflow.io.RaggedFeature.' + k for k in ('RowLengths', 'UniformRowLength', 'RowSplits', 'RowStarts', 'RowLimits', 'ValueRowIDs')},
            {'builtins.str', 'builtins.bytes', 'builtins.int', 'builtins.float', 'builtins.list', 'builtins.tuple', 'builtins.dict', 'builtins.set', 'builtins.frozenset', 'numpy.ndarray'},
            {'tensorflow.Tensor', 'tensorflow.SparseTensor', 'tensorflow.RaggedTensor', 'numpy.ndarray', 'builtins.list', 'builtins.dict', 'builtins.str', 'builtins.bytes'}]


SIZE_NAMES = ('rank', 'ndim', 'size', 'count', 'num', 'len', 'index', 'idx')


def integral(x):
    """A value that counts something."""
    if x.op == 'call':
        return callee_is(x, 'builtins.len', 'builtins.int', '.index', '.count')
    if x.op == 'index':
        return True
    return x.op in ('attr', 'param') and any(s in x.a[-1].lower() for s in SIZE_NAMES)


def thresholds(B, ats):
    """What comparisons of one value with several constants say about each other."""
    by = {}
    for t in ats:
        if t.op in ('lt', 'eq'):
            for i in (0, 1):
                c = t.a[i]
                if is_const(c) and isinstance(cval(c), (int, float)) and not isinstance(cval(c), bool) and not is_const(t.a[1 - i]):
                    by.setdefault(t.a[1 - i], []).append((t, cval(c), 'eq' if t.op == 'eq' else 'gt' if i == 0 else 'lt'))
                    break
    asm = 1
    for x, cs in by.items():
        if x in ats:
            cs = cs + [(x, 0, 'ne')]
        if len(cs) < 2:
            continue
        vals = sorted({c for _, c, _ in cs})
        if integral(x):
            pts = {v for c in vals for v in (c - 1, c, c + 1) if v >= 0}
        else:
            pts = set(vals) | {(p + q) / 2 for p, q in zip(vals, vals[1:])} | {vals[0] - 1, vals[-1] + 1}
        f = 0
        for v in sorted(pts):
            g = 1
            for t, c, k in cs:
                h = B.of(t)
                if not {'eq': v == c, 'gt': c < v, 'lt': v < c, 'ne': v != c}[k]:
                    h = B.neg(h)
                g = B.conj(g, h)
            f = B.ite(g, 1, f)
        if x in ats and not integral(x):
            # no number at all
            isn = T('is', x, NONE)
            if isn in ats or all(k in ('eq', 'ne') for _, _, k in cs):
                g = B.of(isn) if isn in ats else 1
                for t, _, k in cs:
                    if k in ('eq', 'ne'):
                        g = B.conj(g, B.neg(B.of(t)))
                f = B.ite(g, 1, f)
        asm = B.conj(asm, f)
    return asm


class BDD:
    """Reduced ordered decision diagrams over the atoms of a few conditions."""
    LIMIT = 6000

    def __init__(self, order):
        self.level = {t: i for i, t in enumerate(order)}
        self.uniq = {}
        self.memo = {}
        self.nodes = [(1 << 30, 0, 0), (1 << 30, 1, 1)]
        self.tmemo = {}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            if len(self.nodes) > self.LIMIT:
                raise OverflowError
            r = self.uniq[k] = len(self.nodes)
            self.nodes.append(k)
        return r

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        N = self.nodes
        v = min(N[f][0], N[g][0], N[h][0])

        def cof(x, i):
            return N[x][i] if N[x][0] == v else x
        r = self.mk(v, self.ite(cof(f, 1), cof(g, 1), cof(h, 1)), self.ite(cof(f, 2), cof(g, 2), cof(h, 2)))
        self.memo[k] = r
        return r

    def neg(self, f):
        return self.ite(f, 0, 1)

    def conj(self, f, g):
        return self.ite(f, g, 0)

    def of(self, t):
        r = self.tmemo.get(t)
        if r is not None:
            return r
        o = t.op
        if o == 'and':
            r = 1
            for x in t.a:
                r = self.conj(r, self.of(x))
                if r == 0:
                    break
        elif o == 'or':
            r = 0
            for x in t.a:
                r = self.ite(r, 1, self.of(x))
                if r == 1:
                    break
        elif o == 'not':
            r = self.neg(self.of(t.a[0]))
        elif o == 'le':
            r = self.neg(self.of(T('lt', t.a[1], t.a[0])))
        elif o == 'const':
            r = int(bool(cval(t)))
        elif o == 'phi':
            r = self.ite(self.of(t.a[0]), self.of(truth(t.a[1])), self.of(truth(t.a[2])))
        else:
            r = self.mk(self.level[t], 0, 1)
        self.tmemo[t] = r
        return r


MAX_ATOMS = 32
_rel = {}


def holds(t, val):
    o = t.op
    if o == 'and':
        return all(holds(x, val) for x in t.a)
    if o == 'or':
        return any(holds(x, val) for x in t.a)
    if o == 'not':
        return not holds(t.a[0], val)
    if o == 'le':
        return not holds(T('lt', t.a[1], t.a[0]), val)
    if o == 'const':
        return bool(cval(t))
    if o == 'phi':
        return holds(truth(t.a[1] if holds(t.a[0], val) else t.a[2]), val)
    return val[t]


def quantified(ats):
    """Tests for a satisfying element of one collection, with the combinations of outcomes that some collection has."""
    by = {}
    for x in ats:
        if x.op == 'any':
            by.setdefault(x.a[1], []).append(x)
    out = []
    for its, qs in by.items():
        el = {}
        for q in qs:
            atoms_of(q.a[0], el)
        el = list(el)
        empty_ = [its[0]] if len(its) == 1 and its[0] in ats else []
        if len(el) > 6 or len(qs) > 8 or len(qs) + len(empty_) < 2:
            continue
        excl = constraints(el)
        kinds_ = set()
        for vals in itertools.product((False, True), repeat=len(el)):
            val = dict(zip(el, vals))
            if not any(val[x] and val[y] for x, y in excl):
                kinds_.add(tuple(holds(q.a[0], val) for q in qs) + (True,) * len(empty_))
        reach = {(False,) * (len(qs) + len(empty_))}
        for k in kinds_:
            reach |= {tuple(x or y for x, y in zip(k, r)) for r in reach}
        out.append((qs + empty_, reach))
    return out


def relation(g1, g2, assume=TRUE):
    """(1 implies 2, 2 implies 1) under assume, or None when too large."""
    k = (g1, g2, assume)
    if k in _rel:
        return _rel[k]
    ats = list(atoms_of(assume, atoms_of(g2, atoms_of(g1, {}))))
    r = None
    if len(ats) <= MAX_ATOMS:
        try:
            B = BDD(ats)
            asm = B.conj(B.of(assume), thresholds(B, ats))
            for q in quantified(ats):
                f = 0
                for vec in q[1]:
                    g = 1
                    for x, v in zip(q[0], vec):
                        h = B.of(x)
                        g = B.conj(g, h if v else B.neg(h))
                    f = B.ite(g, 1, f)
                asm = B.conj(asm, f)
            for x, y in constraints(ats):
                asm = B.conj(asm, B.neg(B.conj(B.of(x), B.of(y))))
            f, g = B.of(g1), B.of(g2)
            r = (B.conj(asm, B.conj(f, B.neg(g))) == 0, B.conj(asm, B.conj(g, B.neg(f))) == 0)
        except OverflowError:
            r = None
    _rel[k] = r
    return r


def equivalent(a, b, assume=TRUE):
    if a is b:
        return True
    r = relation(a, b, assume)
    return None if r is None else (r == (True, True))


# -------------------------------------------------------------------- values

def opaque(t):
    return any(x.op in OPAQUE for x in walk(t))


def opaque_beyond(t, known):
    """Has it parts that say nothing, other than those which are known?"""
    if t in known:
        return False
    return t.op in OPAQUE or any(opaque_beyond(k, known) for k in kids(t))


def strip(t):
    while t.op == 'call' and len(t.a[1]) == 1 and t.a[0].op == 'global' and t.a[0].a[0] in ('builtins.list', 'builtins.tuple', 'builtins.iter'):
        t = t.a[1][0][1]
    return t


def is_cond(t):
    return t.op in ('and', 'or', 'not', 'lt', 'le', 'eq', 'is', 'in', 'any')


def measure(t):
    """A test as (what is measured, outcome for a number) or None."""
    if t.op in ('lt', 'eq'):
        for i in (0, 1):
            c = t.a[i]
            if is_const(c) and isinstance(cval(c), (int, float)) and not is_const(t.a[1 - i]):
                k, x = cval(c), t.a[1 - i]
                return x, (lambda v: v == k) if t.op == 'eq' else (lambda v: k < v) if i == 0 else (lambda v: v < k)
        return None
    return t, bool


def sized(x):
    return x.a[1][0][1] if callee_is(x, 'builtins.len') and len(x.a[1]) == 1 else None


def asks_presence(x, ats):
    """d[k] is None, next to k in d: how d.get(k) is tested, or how it is spelled out."""
    return x.op == 'is' and x.a[1] is NONE and x.a[0].op == 'sub' and T('in', x.a[0].a[1], x.a[0].a[0]) in ats


DTYPE_KINDS = ('is_integer', 'is_floating', 'is_unsigned', 'is_complex', 'is_bool')


def other_test(a, b):
    """Two tests of one thing that some value tells apart."""
    ma, mb = measure(a), measure(b)
    if ma and mb:
        (x, f), (y, g) = ma, mb
        if sized(x) is y or sized(y) is x or x is y and sized(x) is not None:
            return any(f(v) != g(v) for v in range(8))
        if x is y and a.op != b.op and x.op == 'sub' and x.a[0].op in ('param', 'elem') and is_const(x.a[1]) and all(type(cval(k)) is int for t in (a, b) for k in t.a if is_const(k)):
            # entries that are numbers from 0 up, whichever way round the test is put
            return any(f(v) != g(v) for v in range(20)) and any(f(v) == g(v) for v in range(20))
        if x is y and a.op != b.op and integral(x):
            return any(f(v) != g(v) for v in range(-3, 20))
    for p, q in ((a, b), (b, a)):
        if p.op == 'eq' and q.op == 'attr' and q.a[1] in DTYPE_KINDS and q.a[0] in p.a:
            # one data type, against a kind of which there are several
            y = p.a[1 - p.a.index(q.a[0])]
            if y.op == 'global' and y.a[0].startswith('tensorflow.'):
                return True
    if a.op in ('eq', 'lt') and b.op in ('eq', 'lt') and a.op != b.op and not opaque(a) and not opaque(b):
        for i in (0, 1):
            for j in (0, 1):
                if a.a[i] is b.a[j] and not is_const(a.a[i]):
                    p, q = a.a[1 - i], b.a[1 - j]
                    return not (is_const(p) and is_const(q)) and any(strong(s) for t in (p, q) for s in symbols(t))
    return False


FILLED = set()          # fields stored on one side of the comparison only
KNOWN = lambda: ()      # the terms of the reference function under comparison


class Differ:
    def __init__(self, vocab, assume=TRUE):
        self.memo = {}
        self.assume = assume
        self.vocab = vocab
        self.budget = 4000
        self.depth = 0

    def diff(self, a, b, mode=''):
        if a is b:
            return []
        key = (a, b, mode)
        if key in self.memo:
            return self.memo[key]
        self.budget -= 1
        if self.budget < 0:
            return [Diff('too large', a, b, False)]
        self.memo[key] = []
        r = self._diff(a, b, mode)
        self.memo[key] = r
        return r

    def _diff(self, a, b, mode):
        a, b = strip(a), strip(b)
        if a is b:
            return []
        if self.assume is not TRUE:
            # a flag whose value the guard fixes
            for x, y in ((a, b), (b, a)):
                if is_const(y) and isinstance(cval(y), bool) and not is_const(x) and equivalent(truth(x), y, self.assume):
                    return []
                if y is NONE and x.op in ('param', 'attr', 'sub', 'elem', 'call') and equivalent(T('is', x, NONE), TRUE, self.assume):
                    return []
        if mode == 'msg':
            return []
        if is_cond(a) and is_cond(b) and not (a.op == b.op and a.op in ('eq', 'is', 'in', 'any', 'lt')):
            return self.cond(a, b)
        if (a.op == 'phi' or b.op == 'phi'):
            return self.cases(a, b, mode)
        if is_cond(a) and is_cond(b):
            return self.cond(a, b)
        r = self.same(a, b, mode) if a.op == b.op else self.root(a, b, mode)
        if r and a.op in ('bin', 'neg') and b.op in ('bin', 'neg'):
            n = alike(a, b, self.assume)
            if n is True:
                # another arrangement of the same formula
                return [Diff(d.what, d.a, d.b, False) for d in r]
            if n is False and not any(d.dec for d in r):
                return [Diff('arithmetic', a, b, True)]
        return r

    # -- conditions
    def cond(self, a, b, what='condition'):
        if a is b:
            return []
        e = equivalent(a, b, self.assume)
        if e:
            return []
        if e is None:
            return [Diff(what, a, b, False)]
        A, B = atoms_of(a, {}), atoms_of(b, {})
        oa = [x for x in A if x not in B]
        ob = [x for x in B if x not in A]
        ea, eb = ({(x.a[1], y) for x in X if x.op == 'any' for y in atoms_of(x.a[0], {})} for X in (A, B))
        if ea == eb and ea:
            # the same tests of elements under other quantifiers
            qa = [x for x in oa if x.op != 'any']
            qb = [x for x in ob if x.op != 'any']
            if not qa and not qb:
                oa = ob = []
        if oa and a.op not in ('and', 'or', 'not', 'phi', 'le') and b.op not in ('and', 'or', 'not', 'phi', 'le'):
            return self.atom(a, b)
        if not oa or not ob:
            if any(opaque(x) and (x.op == 'any' or x not in KNOWN() and opaque_beyond(x, KNOWN())) for x in ob) or any(x.op in ('caught', 'exc') for o in oa for x in walk(o)):
                return [Diff(what, a, b, False)]
            if (oa or ob) and all(asks_presence(x, list(A) + list(B)) for x in oa or ob):
                return [Diff(what, a, b, False)]
            return [Diff(what + (' is not equivalent' if not oa and not ob else ' lost a test' if oa else ' gained a test'), a, b, True)]
        # pair rewritten atoms
        if len(oa) == len(ob) <= 4:
            best = None
            # what both sides have tested already
            cb = set(conj(b))
            both = mk_and(self.assume, *[x for x in conj(a) if x in cb])
            D = self
            if both is not self.assume and both is not FALSE and self.depth < 4:
                D = Differ(self.vocab, both)
                D.depth, D.budget = self.depth + 1, min(self.budget, 1000)
            for perm in itertools.permutations(ob):
                ds = [D.atom(x, y) for x, y in zip(oa, perm)]
                cost = sum(len(d) if all(q.dec for q in d) else 50 for d in ds)
                if best is None or cost < best[0]:
                    best = (cost, perm, ds)
            cost, perm, ds = best
            env = dict(zip(perm, oa))
            b2 = self.subst_atoms(b, env)
            flat = [d for x in ds for d in x]
            if flat and not all(d.dec for d in flat):
                return flat
            if equivalent(a, b2, self.assume):
                return flat
            if not flat:
                return [Diff(what + ' is not equivalent', a, b, True)]
            # single comparison negated together with operand change etc.
            return flat
        return [Diff(what, a, b, False)]

    def subst_atoms(self, t, m):
        if t.op in ('and', 'or', 'not'):
            ks = [self.subst_atoms(x, m) for x in t.a]
            return {'and': mk_and, 'or': mk_or, 'not': mk_not}[t.op](*ks)
        if t.op == 'le':
            return mk_not(self.subst_atoms(T('lt', t.a[1], t.a[0]), m))
        if t.op == 'phi':
            c, x, y = [self.subst_atoms(truth(k), m) for k in t.a]
            return mk_or(mk_and(c, x), mk_and(mk_not(c), y))
        return m.get(t, t)

    def atom(self, a, b):
        if a is b:
            return []
        if a.op == 'lt' and b.op == 'lt':
            if a.a[0] is b.a[1] and a.a[1] is b.a[0]:
                return [Diff('comparison is strict where it was not (or reversed)', a, b, True)]
            # integer neighbours: k < n  vs  k+1 <= n is handled as equal via the negated atom
            for i in (0, 1):
                x, y = a.a[i], b.a[1 - i]
                if is_const(x) and is_const(y) and a.a[1 - i] is b.a[i] and all(isinstance(cval(z), int) for z in (x, y)):
                    if abs(cval(x) - cval(y)) == 1:
                        return [Diff('comparison', a, b, False)]
            return self.diff(a.a[0], b.a[0]) + self.diff(a.a[1], b.a[1])
        if a.op == b.op and a.op in ('eq', 'is'):
            if a.op == 'eq':
                for i in (0, 1):
                    for j in (0, 1):
                        if a.a[i] is b.a[j]:
                            return self.diff(a.a[1 - i], b.a[1 - j])
            return self.diff(a.a[0], b.a[0]) + self.diff(a.a[1], b.a[1])
        if a.op == b.op == 'in':
            return self.diff(a.a[0], b.a[0]) + self.diff(a.a[1], b.a[1])
        if a.op == b.op == 'any':
            return self.cond(a.a[0], b.a[0]) + self.iters(a.a[1], b.a[1])
        if a.op == b.op:
            return self.same(a, b, '')
        ks = {a.op, b.op}
        if ks <= {'eq', 'lt', 'is'} and ({a.a[0], a.a[1]} == {b.a[0], b.a[1]}):
            return [Diff('comparison operator', a, b, not opaque(a) and ks != {'eq', 'is'})]
        if ks < {'eq', 'in', 'lt'} and len(ks) == 2 and set(a.a) == set(b.a) and not any(is_const(x) for x in a.a):
            return [Diff('comparison operator', a, b, True)]
        for p, q in ((a, b), (b, a)):
            if p.op == 'eq' and q.op == 'bin' and q.a[0] == '-' and set(map(members, p.a)) == set(q.a[1:]):
                # the same members, against none left over
                return [Diff('comparison operator', a, b, True)]
            # there being such an attribute, against it being one particular object
            if p.op == 'call' and callee_is(p, 'builtins.hasattr') and q.op in ('is', 'eq') and any(callee_is(x, 'builtins.getattr') and x.a[1][:2] == p.a[1] and y.op in ('param', 'elem', 'attr') for x, y in (q.a[:2], q.a[1::-1])):
                return [Diff('test', a, b, True)]
        # truthiness test vs None test of the same value
        for p, q in ((a, b), (b, a)):
            if p.op == 'is' and p.a[0] is q:
                return [Diff('None test vs truth test', a, b, True)]
        return [Diff('test', a, b, other_test(a, b))]

    def iters(self, x, y, mode='iter'):
        if x == y:
            return []
        ux, uy = (tuple(z for i in l for z in (i.a[1] if i.op == 'until' else (i,))) for l in (x, y))
        nx, ny = (sum(i.op == 'until' for i in l) for l in (x, y))
        if nx != ny and ux == uy:
            return [Diff('iteration stops early' if nx < ny else 'iteration no longer stops', T('its', *x), T('its', *y), True)]
        if len(x) == len(y) == 1 and y[0].op == 'slice' and y[0].a[1] is NONE and is_const(y[0].a[2]) and x[0] in set(walk(y[0])) and not any(z.op == 'slice' for z in walk(x[0])):
            return [Diff('iteration over the first elements only', x[0], y[0], True)]
        if len(x) == len(y) == 1 and callee_is(y[0], 'builtins.range') and any(callee_is(z, 'builtins.min') and any(sized(k) is x[0] for k in kids(z)) for z in walk(y[0])):
            return [Diff('iteration over fewer elements', x[0], y[0], True)]
        if len(x) != len(y):
            return [Diff('iteration', T('its', *x), T('its', *y), False)]
        out = []
        for p, q in zip(x, y):
            out += self.diff(p, q, mode)
        return out

    # -- phi
    def case_table(self, t):
        out = []

        def rec(x, g, n):
            if x.op == 'phi' and n < 7:
                rec(x.a[1], mk_and(g, x.a[0]), n + 1)
                rec(x.a[2], mk_and(g, mk_not(x.a[0])), n + 1)
            else:
                out.append((g, x))
        rec(t, TRUE, 0)
        d = {}
        for g, x in out:
            if g is FALSE:
                continue
            d[x] = mk_or(d[x], g) if x in d else g
        return d

    def cases(self, a, b, mode):
        if a.op in ('map', 'seq', 'setof', 'sum') and b.op == 'phi':
            its = [a.a[2]] if a.op == 'sum' else [p[3] if p[0] == 'manykv' else p[2] for p in a.a[0] if p[0] in ('many', 'manysplat', 'manykv')]
            if any(x.op == 'last' and x.a[2] == i[:len(x.a[2])] for x in choice_leaves(b) for i in its):
                return [Diff('only what the last iteration found is kept', a, b, True)]
        if a.op == b.op == 'phi' and a.a[0] is a.a[1] and b.a[0] is b.a[1] and a.a[1] is b.a[2] and a.a[2] is b.a[1]:
            return [Diff('order of alternatives', a, b, True)]
        r = self.cases1(a, b, mode)
        if not r or self.depth > 4:
            return r
        # decide case by case where the two sides test at different places
        tests = []
        for t in (a, b):
            while t.op == 'phi':
                for x in atoms_of(t.a[0], {}):
                    if x not in tests:
                        tests.append(x)
                t = t.a[1] if t.a[1].op == 'phi' else t.a[2]
        for x in tests[:3]:
            pa, pb = [(restrict(t, x, True), restrict(t, x, False)) for t in (a, b)]
            if all(u is not a for u in pa) and all(u is not b for u in pb):
                self.depth += 1
                out = []
                for val, u, v, how in ((x, pa[0], pb[0], True), (mk_not(x), pa[1], pb[1], False)):
                    asm = mk_and(restrict(self.assume, x, how), val)
                    if asm is FALSE:
                        continue
                    if u is not v:
                        D = Differ(self.vocab, asm)
                        D.depth, D.budget = self.depth, min(self.budget, 400)
                        out += D.diff(u, v, mode)
                self.depth -= 1
                if not out:
                    return []
                if not all(d.dec for d in r) and all(d.dec or promote(d, self.vocab) for d in out):
                    return out
        return r

    def cases1(self, a, b, mode):
        A, B = self.case_table(a), self.case_table(b)
        for D in (A, B):
            for x in list(D):
                r = relation(D[x], FALSE, self.assume) if D[x] is not TRUE else None
                if r is not None and r[0] and len(D) > 1:
                    del D[x]
        oa = [x for x in A if x not in B]
        ob = [x for x in B if x not in A]
        if len(B) == 1 and ob and oa and (is_const(ob[0]) or ob[0].op == 'param') and not any(empty(x) and empty(ob[0]) for x in A):
            return [Diff('value is always the same', a, b, True)]
        if oa and not ob and all(x.op in ('mut', 'loop', 'carried') and peel(x) in B for x in oa):
            return [Diff('update dropped', x, peel(x), True) for x in oa]
        if oa and not ob:
            # the remaining case may subsume the dropped one (a loop over nothing, a test made redundant)
            red = any(y.op in ('loop', 'carried', 'mut', 'seq', 'map', 'setof', 'sum', 'call') and (peel(y) is x or (empty(x) and y.op != 'call' and not (y.op in ('seq', 'setof', 'map') and any(p[0] in ('item', 'kv') for p in y.a[0]))) or (x.op in ('seq', 'map', 'setof') and y.op == x.op and is_subseq(x.a[0], y.a[0])))
                      and about(A[x], y) for x in oa for y in B)
            for x in list(oa):
                # the general case covers the special one
                y = self.under(B, A[x])
                for c in conj(A[x]):
                    if c.op in ('is', 'eq') and any(is_const(k) for k in c.a) and y is not x:
                        k, v = c.a if is_const(c.a[0]) else (c.a[1], c.a[0])
                        if not is_const(v) and whole_slices(subst(y, {v: k})) is x:
                            oa.remove(x)
                            break
            return [Diff('case dropped', x, self.under(B, A[x]), not red) for x in oa]
        if any(opaque(x) for x in oa + ob) and len(oa) != len(ob):
            return [Diff('value', a, b, False)]
        out = []
        pair = {}
        if oa and ob and len(oa) == len(ob) <= 4:
            best = None
            for perm in itertools.permutations(ob):
                ds = [self.diff(x, y, mode) for x, y in zip(oa, perm)]
                # prefer the pairing whose conditions agree
                cost = sum((len(d) if all(q.dec for q in d) else 50) + (0 if equivalent(A[x], B[y], self.assume) else 3)
                           for d, x, y in zip(ds, oa, perm))
                if best is None or cost < best[0]:
                    best = (cost, perm, ds)
            for x, y in zip(oa, best[1]):
                pair[y] = x
            for x, ds in zip(oa, best[2]):
                if ds and self.depth < 4:
                    # what the selecting conditions say about the values
                    y = next(k for k, v in pair.items() if v is x)
                    asm = mk_and(self.assume, A[x], B[y])
                    if asm is not FALSE and asm is not self.assume and len(atoms_of(asm, {})) <= 12:
                        D = Differ(self.vocab, asm)
                        D.depth, D.budget = self.depth + 1, min(self.budget, 400)
                        d2 = D.diff(x, y, mode)
                        if not d2 or not all(d.dec for d in d2):
                            ds = d2
                out += ds
        elif ob and not oa:
            out = [Diff('case added', self.under(A, B[x]), x, not opaque(x)) for x in ob]
            return out
        elif oa or ob:
            return [Diff('value', a, b, False)]
        for y, g in B.items():
            x = pair.get(y, y)
            ds = self.cond(A[x], g, 'condition selecting %s' % show(x, 3)[:80])
            if ds:
                # whether a loop over nothing is entered
                for L in B:
                    if L.op == 'loop' and (L is y or peel(L) is y) and peel(L) in B and all(about(c, L) for c in set(atoms_of(A[x], {})) ^ set(atoms_of(g, {}))):
                        ds = [Diff('loop entry', d.a, d.b, False) for d in ds]
            out += ds
        return dedupe(out)

    def under(self, table, g):
        for x, h in table.items():
            if relation(g, h, self.assume) and relation(g, h, self.assume)[0]:
                return x
        return next(iter(table), NONE)

    # -- same operator
    def same(self, a, b, mode):
        o = a.op
        if o == 'const':
            x, y = cval(a), cval(b)
            if mode in ('label', 'name') and isinstance(x, str) and isinstance(y, str):
                return []
            if type(x) is not type(y) and x == y:
                return [Diff('constant', a, b, False)]
            return [Diff('constant', a, b, True)]
        if o == 'global':
            x, y = a.a[0], b.a[0]
            if x.rsplit('.', 1)[-1] == y.rsplit('.', 1)[-1] and not x.startswith(PKG):
                return []
            dec = not (x.startswith('?') or y.startswith('?')) and (not y.startswith(PKG) or y in self.vocab) and (not x.startswith(PKG) or x in self.vocab)
            return [Diff('name', a, b, dec)]
        if o in ('param', 'lparam'):
            return [Diff('value', a, b, True)]
        if o == 'attr':
            d = self.diff(a.a[0], b.a[0], mode)
            if len(a.a) != len(b.a):
                return d + [Diff('attribute', a, b, False)] if a.a[1] == b.a[1] else [Diff('attribute', a, b, False)]
            if len(a.a) == 3:
                d = d + self.diff(a.a[2], b.a[2], mode)
            if a.a[1] != b.a[1]:
                return [Diff('attribute', a, b, not d and ('.' + b.a[1]) in self.vocab)]
            return d
        if o == 'call':
            return self.call(a, b, mode)
        if o == 'lam':
            if a.a[0] != b.a[0]:
                return [Diff('callable', a, b, False)]
            return self.diff(a.a[1], b.a[1], mode)
        if o == 'decorated':
            return self.diff(a.a[0], b.a[0], mode) + self.diff(a.a[1], b.a[1], mode)
        if o in ('seq', 'setof', 'map'):
            return self.parts(a, b, mode)
        if o == 'tup':
            if len(a.a) == len(b.a):
                if set(a.a) == set(b.a):
                    return [Diff('order of values', a, b, True)]
                return [d for x, y in zip(a.a, b.a) for d in self.diff(x, y, mode)]
            return self.subsequence(a.a, b.a, a, b)
        if o == 'concat':
            return self.concat(a, b, mode)
        if o == 'bin':
            op1, op2 = a.a[0], b.a[0]
            if op1 == '>>' and op2 == '>>':
                return self.diff(a.a[1], b.a[1], 'label') + self.diff(a.a[2], b.a[2], mode)
            if op1 != op2:
                if a.a[1:] == b.a[1:]:
                    return [Diff('operator', a, b, True)]
                return [Diff('operation', a, b, False)]
            if a.a[1] is b.a[2] and a.a[2] is b.a[1]:
                return [] if op1 in ('*', '&', '|', '^') else [Diff('operand order', a, b, op1 != '+')]
            if op1 in ('+', '*'):
                r = ac_diff(a, b, op1)
                if r is not None:
                    xs, ys = r
                    if not xs and not ys:
                        return []
                    if len(xs) == len(ys) == 1:
                        return self.diff(xs[0], ys[0], mode)
                    if not xs or not ys:
                        return [Diff('operand dropped or added', a, b, True)]
                    if len(ys) == 1 and ys[0].op == 'bin' and set(ys[0].a[1:]) == set(xs) and len(xs) == 2:
                        return [Diff('operator', a, b, True)]
                    return [Diff('arithmetic', a, b, False)]
            return self.diff(a.a[1], b.a[1], mode) + self.diff(a.a[2], b.a[2], mode)
        if o in ('carried', 'loop'):
            ds = []
            for x, y in zip(kids(a), kids(b)):
                ds += self.diff(x, y, mode)
            if len(kids(a)) != len(kids(b)) or (not ds and o == 'carried'):
                return [Diff('loop', a, b, False)]
            return ds
        if o == 'sum' and a.a[2] != b.a[2] and any(x.op == 'until' for x in a.a[2] + b.a[2]):
            ds = self.iters(a.a[2], b.a[2])
            if any(d.dec for d in ds):
                return ds
        if o == 'caught':
            if set(a.a[0]) != set(b.a[0]):
                return [Diff('handled exception types', a, b, True)]
            return []
        if o == 'mut':
            if a.a[1] != b.a[1]:
                return [Diff('mutation', a, b, False)]
        ka, kb = kids(a), kids(b)
        if len(ka) != len(kb):
            return [Diff('value', a, b, False)]
        sa, sb = skeleton(a.a), skeleton(b.a)
        ds = []
        inner = mode if mode in ('msg', 'name', 'label') else 'iter' if o == 'elem' else ''
        for x, y in zip(ka, kb):
            ds += self.diff(x, y, inner)
        if sa != sb:
            ds.append(Diff('value', a, b, False))
        return ds

    def call(self, a, b, mode):
        fa, fb = a.a[0], b.a[0]
        if fa.op == 'global' and fa is fb and is_logger(fa.a[0]):
            return []
        da, db = dict(a.a[1]), dict(b.a[1])
        out = []
        if fa is not fb:
            w = self.wrap(a, b, mode)
            if w:
                return w
            if fa.op == fb.op == 'attr' and fa.a[1] == fb.a[1]:
                out += self.diff(fa.a[0], fb.a[0], mode)
            else:
                d = self.diff(fa, fb, mode)
                if d and a.a[1] != b.a[1]:
                    return [Diff('call', a, b, fa.op == fb.op == 'global' and fb.a[0].rpartition('.')[2] == fa.a[0].rpartition('.')[2].replace('unsorted_', '') and da.get(0) is db.get(0) is not None)]
                out += d
        if fa is fb and fa.op == 'global':
            for x, y in ((da, db), (db, da)):
                for k in list(x):
                    if k not in y and (fa.a[0], k) in DEFAULTS:
                        if DEFAULTS[fa.a[0], k] is x[k]:
                            del x[k]
                        else:
                            y[k] = DEFAULTS[fa.a[0], k]
        if set(da) != set(db):
            va, vb = list(da.values()), list(db.values())
            if set(va) == set(vb) and len(va) == len(vb):
                return out
            miss = [k for k in da if k not in db]
            extra = [k for k in db if k not in da]
            common = [k for k in da if k in db]
            for k in common:
                out += self.diff(da[k], db[k], self.argmode(k, fa, mode))
            if out and (miss and extra):
                return [Diff('call arguments', a, b, False)]
            if miss and extra:
                # respelled positionally / by keyword
                if sorted(x.n for x in (da[k] for k in miss)) == sorted(x.n for x in (db[k] for k in extra)):
                    return out
                return [Diff('call arguments', a, b, False)]
            for k in miss:
                if k in ('name', 'label') and not message(fa) or (k in ('*', '**') and extra):
                    continue
                if k in ('*', '**'):
                    out.append(Diff('unpacked arguments of %s no longer given' % show(fa, 3), da[k], 'absent', True))
                    continue
                dec = not (is_const(da[k]) and not self.is_project(fa) and not self.known(fa, k)) and not (k in FILLED and message(fa))
                out.append(Diff('argument %s of %s no longer given' % (k, show(fa, 3)), da[k], 'absent', dec))
            for k in extra:
                if k in ('name', 'label') and not message(fa):
                    continue
                dec = not opaque(db[k]) and not (k in FILLED and message(fa)) and not (k in ('*', '**')) and not (is_const(db[k]) and not self.is_project(fa) and not self.known(fa, k))
                out.append(Diff('argument %s of %s newly given' % (k, show(fa, 3)), 'absent', db[k], dec))
            return out
        # same keys
        ka = [k for k in da if da[k] is not db[k]]
        if len(ka) == 2 and da[ka[0]] is db[ka[1]] and da[ka[1]] is db[ka[0]] and not set(ka) & {'name'}:
            return out + [Diff('arguments %s and %s swapped' % (ka[0], ka[1]), a, b, True)]
        if len(ka) > 1 and set(da.values()) == set(db.values()) and len(set(da.values())) > 1:
            return out + [Diff('arguments permuted', a, b, True)]
        for k in ka:
            out += self.diff(da[k], db[k], self.argmode(k, fa, mode))
        return out

    def argmode(self, k, f, mode):
        if k == 'name' and f.op == 'global' and f.a[0].startswith(PKG) and f.a[0].rsplit('.', 1)[1].lstrip('_')[:1].isupper():
            # what an object of the code base is called by, not what an operation is labelled with
            return ''
        if k == 'name' and message(f):
            return ''
        if k == 'label' and f.op == 'global' and f.a[0].startswith(PKG):
            return 'label'
        if k == 'scope' and f.op in ('attr', 'global') and f.a[-1 if f.op == 'attr' else 0].endswith('get_collection'):
            # a selection
            return ''
        if k in ('name', 'label', 'scope', 'default_name'):
            return 'name'
        n = f.a[0] if f.op == 'global' else (f.a[1] if f.op == 'attr' else '')
        if n.endswith(('name_scope', 'variable_scope', 'unique_name')) and k == 0:
            return 'name'
        if n.endswith(('Error', 'Exception', 'Warning')):
            return 'msg'
        if k in ('message', 'msg', 'error_message', 'doc', 'docstring'):
            return 'msg'
        return mode if mode == 'msg' else ''

    def known(self, f, k):
        """Is the default of this library parameter known (and so not what is given)?"""
        s = LIBSIGS.get(f.a[0]) if f.op == 'global' else None
        return s is not None and k in s[1]

    def is_project(self, f):
        return (f.op == 'global' and f.a[0].startswith(PKG)) or f.op == 'attr' and f.a[0] is param('self')

    def subsequence(self, xs, ys, a, b):
        xs, ys = list(xs), list(ys)
        if is_subseq(ys, xs):
            return [Diff('element dropped', a, b, True)]
        if is_subseq(xs, ys):
            return [Diff('element added', a, b, not opaque(b))]
        return [Diff('elements', a, b, False)]

    def parts(self, a, b, mode):
        pa, pb = list(a.a[0]), list(b.a[0])
        if a.op == 'setof' or (a.op == 'map' and all(p[0] == 'kv' and is_const(p[1]) for p in pa + pb)):
            ra = [p for p in pa if p not in pb]
            rb = [p for p in pb if p not in pa]
            if a.op == 'map':
                ka, kb = {p[1]: p[2] for p in ra}, {p[1]: p[2] for p in rb}
                out = []
                for k in ka:
                    if k in kb:
                        out += self.diff(ka[k], kb[k], mode)
                if [k for k in ka if k not in kb] and [k for k in kb if k not in ka]:
                    return out + [Diff('mapping keys', a, b, len(ka) == len(kb))]
                for k in ka:
                    if k not in kb:
                        out.append(Diff('mapping entry dropped', k, 'absent', True))
                for k in kb:
                    if k not in ka:
                        out.append(Diff('mapping entry added', 'absent', k, True))
                return out
            if not ra and not rb:
                return []
            if len(ra) == len(rb) == 1:
                return self.part(ra[0], rb[0], 'set')
            if not ra or not rb:
                return [Diff('set members', a, b, True)]
            return [Diff('set members', a, b, len(ra) == len(rb) and all(p[0] == 'item' and is_const(p[1]) for p in ra + rb))]
        if len(pa) != len(pb) or pa != pb:
            pa, pb = merge_exclusive(pa), merge_exclusive(pb)
            if pa == pb:
                return []
        if len(pa) == len(pb):
            if set(pa) == set(pb):
                # reordered parts are the same sequence when at most one of them is present
                if exclusive_reorder(pa, pb):
                    return []
                moved = [p for p, q in zip(pa, pb) if p != q]
                return [Diff('order of elements', a, b, a.op == 'seq' or all(p[0] in ('splat', 'manysplat', 'manykv') for p in moved))]
            ds = [d for p, q in zip(pa, pb) for d in self.part(p, q, mode)]
            if ds and 1 < len(pb) <= 4:
                # parts of which at most one is present have no order
                for qb in itertools.permutations(pb):
                    if list(qb) != pb and exclusive_reorder(list(qb), pb):
                        d2 = [d for p, q in zip(pa, qb) for d in self.part(p, q, mode)]
                        if not any(d.dec for d in d2) and (not d2 or any(d.dec for d in ds)):
                            ds = d2
            return ds
        return self.subsequence(pa, pb, a, b)

    def fresh_calls(self, t):
        return any(x.op == 'call' and x.a[0].op == 'global' and x.a[0].a[0].startswith(PKG) and x.a[0].a[0] not in self.vocab for x in walk(t))

    def part(self, p, q, mode):
        if p == q:
            return []
        if p[0] != q[0]:
            ks = {p[0], q[0]}
            if ks == {'many', 'splat'}:
                # copying a sequence element-wise
                m, s = (p, q) if p[0] == 'many' else (q, p)
                if m[3] is TRUE and len(m[2]) == 1 and m[1] is T('elem', m[2][0]) and m[2][0] is s[1]:
                    return []
                if len(m[2]) == 1 and m[1] is T('elem', m[2][0]) and m[2][0] is s[1]:
                    return [Diff('filter', T('tup', *[x for x in p[1:] if isinstance(x, T)]), T('tup', *[x for x in q[1:] if isinstance(x, T)]), True)]
                if m[3] is TRUE and len(m[2]) == 1 and m[2][0] is s[1]:
                    # a value per element against the elements themselves
                    e = T('elem', s[1])
                    return self.diff(*((m[1], e) if m is p else (e, m[1])), mode)
            if ks == {'manykv', 'splat'}:
                # copying a mapping entry by entry
                m, s = (p, q) if p[0] == 'manykv' else (q, p)
                if len(m[3]) == 1 and m[3][0] is s[1] and m[1] is T('elem', s[1]):
                    v = T('sub', s[1], m[1])
                    if m[2] is not v:
                        return self.diff(*((m[2], v) if m is p else (v, m[2])), mode)
                    if m[4] is TRUE:
                        return []
                    return [Diff('filter', T('tup', *[x for x in p[1:] if isinstance(x, T)]), T('tup', *[x for x in q[1:] if isinstance(x, T)]), True)]
            if ks == {'item', 'many'} or ks == {'item', 'splat'}:
                return [Diff('element', p[1], q[1], False)]
            return [Diff('element', p[1], q[1], False)]
        if p[0] in ('item', 'splat', 'default'):
            return self.diff(p[1], q[1], mode)
        if p[0] == 'kv':
            return self.diff(p[1], q[1], mode) + self.diff(p[2], q[2], mode)
        n = 3 if p[0] == 'manykv' else 2
        it = self.iters(p[n], q[n], 'seq' if n == 2 and mode != 'set' else 'iter')
        if it and all(d.dec for d in it):
            # the element terms mention the iterated value: report the iteration only
            m = {}
            for x, y in zip(p[n], q[n]):
                m[T('elem', y)] = T('elem', x)
                m[T('index', (y,))] = T('index', (x,))
                m[y] = x
            out = list(it)
            for x, y in zip(p[1:n], q[1:n]):
                out += self.diff(x, subst(y, m), mode)
            return out + self.cond(p[n + 1], subst(q[n + 1], m), 'filter')
        out = list(it)
        D = self
        if not it:
            D = self.within(p[n])
        for x, y in zip(p[1:n], q[1:n]):
            out += D.diff(x, y, mode)
        # the same elements, paired with something to select them by
        paired = len(p[n]) == len(q[n]) == 1 and q[n][0].op == 'zip' and p[n][0] in q[n][0].a and len(out) == len(it)
        return out + [Diff(d.what, d.a, d.b, d.dec and (paired or not it)) for d in D.cond(p[n + 1], q[n + 1], 'filter')]

    def within(self, its):
        """What holds of each element: no iteration raised, and this one was not filtered out."""
        each = [mk_not(inner_any(x.a[0], x.a[1][k:])) for x in never_any(self.assume)
                for j in range(len(x.a[1])) for k in range(j + 1, j + len(its) + 1) if len(x.a[1]) >= k and x.a[1][j:k] == its[:k - j]]
        asm = mk_and(self.assume, *each, *[x.a[0] for x in its if x.op == 'while'])
        if each and asm is not FALSE and len(atoms_of(asm, {})) <= 24:
            D = Differ(self.vocab, asm)
            D.depth = self.depth
            return D
        return self

    def never(self, x):
        """No element is such, or an iteration would have raised."""
        if x.op != 'not' or x.a[0].op != 'any':
            return False
        h = mk_and(self.within(tuple(x.a[0].a[1])).assume, x.a[0].a[0])
        return h is FALSE or len(atoms_of(h, {})) <= 20 and relation(h, FALSE) == (True, True)

    def concat(self, a, b, mode):
        xs, ys = list(a.a), list(b.a)
        va, vb = [x for x in xs if not is_const(x)], [y for y in ys if not is_const(y)]
        if mode in ('label', 'name'):
            if va == vb or mode == 'name':
                return []
            if len(va) == len(vb):
                return [d for x, y in zip(va, vb) for d in self.diff(x, y, mode)]
            return [Diff('label parts', a, b, is_subseq(vb, va))]
        if len(xs) == len(ys) and len(va) == len(vb):
            pairs = list(zip(xs, ys))
            if any(is_const(x) != is_const(y) for x, y in pairs):
                return [d for x, y in pairs for d in self.diff(x, y, mode)]
            ds = [d for x, y in pairs if not is_const(x) for d in self.diff(x, y, mode)]
            if any(x is not y and any(z.op in OPAQUE for z in walk(x, y)) for x, y in zip(va, vb)):
                # text may have moved into the value next to it
                return ds
            return ds + [d for x, y in pairs if is_const(x) for d in self.diff(x, y, mode)]
        if is_subseq(vb, va) and len(va) > len(vb):
            return [Diff('part of a composed string dropped', a, b, True)]
        if va == vb:
            return [Diff('composed string', a, b, True)]
        return [Diff('composed string', a, b, False)]

    def wrap(self, a, b, mode=''):
        neutral = wrapped(a, b, 4 if b.op not in ('const', 'param', 'lparam', 'global') else 1)
        if neutral is not None:
            return [] if neutral == 'same' else [Diff('operation dropped', a, b, neutral == 'dec')]
        neutral = wrapped(b, a, 4 if a.op not in ('const', 'param', 'lparam', 'global') else 1,
                          lambda f: f in NEUTRAL_ADD or f.startswith(PKG) and f not in self.vocab)
        if neutral is not None:
            return [] if neutral == 'same' else [Diff('operation added', a, b, neutral == 'dec' or mode != 'iter' and rearranged(a, b) or mode == 'seq' and thinned(a, b))]
        return None

    # -- different operators
    def root(self, a, b, mode):
        if mode == 'msg' or (mode == 'name'):
            return []
        if mode == 'label' and all(x.op in ('const', 'concat') for x in (a, b)):
            return [Diff('label', a, b, a.op == 'concat')]
        if {a.op, b.op} == {'seq', 'bin'}:
            x, y = plus_parts(a), plus_parts(b)
            if len(y) > 1 and len(x) > 1:
                return self.diff(T('seq', tuple(x)), T('seq', tuple(y)), mode)
        for p, q in ((a, b), (b, a)):
            if p.op == 'seq' and lib(q, 'builtins.range') and len(p.a[0]) == 1 and p.a[0][0][0] == 'many' and len(p.a[0][0][2]) == 1:
                # the numbers of a range, listed
                y = p.a[0][0][2][0]
                if lib(y, 'builtins.range') and p.a[0][0][1] is T('elem', y) and p.a[0][0][3] is TRUE:
                    return self.diff(y, b, mode) if p is a else self.diff(a, y, mode)
        for p, q, w in ((a, b, 'update dropped'), (b, a, 'update added')):
            if p.op in ('mut', 'loop', 'carried'):
                if peel(p) is q and (p is a or not self.fresh_calls(p)):
                    return [Diff(w, a, b, p is a)]
        for p, q, w in ((a, b, 'element dropped'), (b, a, 'element added')):
            if p.op in ('seq', 'map', 'setof') and len(p.a[0]) > 1 and ('splat', q) in p.a[0]:
                return [Diff(w, a, b, p is a or not (opaque(b) or self.fresh_calls(b)))]
            if p.op == 'seq' and len(p.a[0]) == 1 and p.a[0][0][0] == 'many' and len(p.a[0][0][2]) == 1 and p.a[0][0][2][0] is q and p.a[0][0][1] is T('elem', q) and p.a[0][0][3] is not TRUE:
                return [Diff('filter dropped' if p is a else 'filter added', a, b, p is a or not self.fresh_calls(b))]
        if is_const(b) and a.op not in ('const', 'phi', 'unbound') and not (empty(a) and empty(b)) and not (a.op == 'global' and a.a[0].startswith(PKG)):
            return [Diff('value', a, b, True)]
        if opaque(a) != opaque(b):
            return [Diff('value', a, b, False)]
        w = self.wrap(a, b, mode)
        if w is not None:
            return w
        for p, q in ((a, b), (b, a)):
            if p.op in ('seq', 'tup') and q.op != 'const':
                only = p.a[0][0][1] if p.op == 'seq' and len(p.a[0]) == 1 and p.a[0][0][0] == 'item' else p.a[0] if p.op == 'tup' and len(p.a) == 1 else None
                if only is q:
                    return [Diff('list of one', a, b, True)]
        leaf = ('const', 'param')
        if b.op in leaf and a.op not in OPAQUE:
            if a.op in ('const', 'param', 'attr', 'global', 'call', 'sub', 'bin', 'concat', 'elem', 'tup', 'seq', 'map', 'slice'):
                if is_const(b) and b is not NONE and a.op == 'global' and a.a[0].startswith(PKG) and a.a[0] not in self.vocab:
                    return [Diff('value', a, b, False)]
                if empty(a) and empty(b):
                    return [Diff('value', a, b, False)]
                return [Diff('value', a, b, True)]
        if a.op in leaf and b.op not in OPAQUE:
            if empty(a) and empty(b):
                return [Diff('value', a, b, False)]
            if b.op in ('const', 'param', 'attr', 'global', 'sub', 'elem', 'bin'):
                return [Diff('value', a, b, True)]
            return [Diff('value', a, b, False)]
        if {a.op, b.op} <= {'attr', 'sub', 'global', 'elem', 'param', 'lparam', 'index'}:
            return [Diff('value', a, b, False)]
        return [Diff('value', a, b, False)]


def inner_any(c, iters):
    """Some iteration of the inner loops: what does not depend on them stays outside."""
    if not iters:
        return c
    its = set(iters)
    inside = [x for x in conj(c) if any(y.op in ('elem', 'index', 'carried') and any(k in its for k in y.a if isinstance(k, T)) or y.op in ('index', 'carried') and any(k == iters or isinstance(k, tuple) and set(map(id, k)) & set(map(id, its)) for k in y.a if isinstance(k, tuple)) for y in walk(x))]
    return mk_and(*[x for x in conj(c) if x not in inside], mk_any(mk_and(*inside) if inside else TRUE, iters))


def about(g, y):
    """Whether a condition speaks about what a collection or loop runs over."""
    dom = set()
    for x in walk(y):
        if x.op in ('loop', 'carried', 'mut'):
            dom.update(walk(*[z for w in x.a[1:] for z in ((w,) if isinstance(w, T) else flat_terms(w))]))
        elif x.op in ('seq', 'map', 'setof'):
            for p in x.a[0]:
                dom.update(walk(*flat_terms(p)))
        elif x.op == 'sum':
            dom.update(walk(*flat_terms(x.a)))
    dom = {x for x in dom if x.op not in ('const', 'global', 'carried')}
    return not dom or any(x in dom or x.op in OPAQUE or x.op == 'call' and x.a[0].op != 'global' for x in walk(g))


def flat_terms(w):
    if isinstance(w, T):
        return [w]
    return [y for x in w for y in flat_terms(x)] if isinstance(w, tuple) else []


def whole_slices(t, memo=None):
    """Slices that take everything left out."""
    def full(i):
        return i.op == 'tup' and all(x.op == 'sl' and all(is_const(y, None) for y in x.a) for x in i.a) if i.op == 'tup' else i.op == 'sl' and all(is_const(y, None) for y in i.a)

    def rec(x):
        if isinstance(x, T):
            r = T(x.op, *[rec(y) for y in x.a])
            if r.op == 'sub' and full(r.a[1]):
                return r.a[0]
            if r.op == 'slice' and all(is_const(y, None) for y in r.a[1:]):
                return r.a[0]
            return r
        return tuple(rec(y) for y in x) if isinstance(x, tuple) else x
    return rec(t)


def peel(t):
    while t.op in ('mut', 'loop', 'carried'):
        t = t.a[0]
    return t


def plus_parts(t):
    """Parts of a list, or of a sum taken as a concatenation of lists."""
    if t.op == 'bin' and t.a[0] == '+':
        return plus_parts(t.a[1]) + plus_parts(t.a[2])
    return list(t.a[0]) if t.op == 'seq' else [('splat', t)]


def empty(t):
    return (is_const(t) and not cval(t)) or (t.op in ('seq', 'map', 'setof') and not t.a[0]) or (t.op == 'tup' and not t.a)


def steps(a):
    """(operand, how) for the data operands of an operation; how is 'und' when the operation may keep the value."""
    if a.op == 'call':
        f = a.a[0]
        g = f.a[0] if f.op == 'global' else ''
        how = 'und' if g in NEUTRAL_WRAP or g == 'tensorflow.convert_to_tensor' else 'dec'
        out = [(v, how) for _, v in a.a[1]]
        if f.op == 'attr':
            out.append((f.a[0], 'und' if f.a[1] in ('copy', 'keys', 'tolist') else 'dec'))
        return out
    if a.op in ('sub', 'slice', 'neg', 'attr'):
        return [(a.a[0], 'dec')]
    if a.op == 'bin':
        return [(a.a[1], 'dec'), (a.a[2], 'dec')]
    if a.op == 'concat':
        return [(x, 'dec') for x in a.a]
    if a.op == 'not':
        return [(a.a[0], 'dec')]
    return []


def wrapped(a, b, depth=4, added=None):
    """a is op(.. op(b)): 'same' if the wrapper keeps the value, 'dec' if it matters, None if not a wrapper.
    added: the operation names that may be new without changing the value."""
    if a.op == 'fmt':
        return 'und'
    best = None
    level = [(a, 'und')]
    seen = set()
    for d in range(depth):
        nxt = []
        for t, h in level:
            g = t.a[0].a[0] if t.op == 'call' and t.a[0].op == 'global' else ''
            for x, how in steps(t):
                if not isinstance(x, T):
                    continue
                if added is not None and how == 'dec' and g and added(g):
                    how = 'und'
                k = 'dec' if 'dec' in (how, h) else 'und'
                if x is b:
                    best = k if best is None else 'dec' if 'dec' in (best, k) else 'und'
                elif (x, k) not in seen:
                    seen.add((x, k))
                    nxt.append((x, k))
        if best or len(nxt) > 400:
            return best
        level = nxt
    return best


def chain_down(b, a):
    """The builtin wrappers that turn a into b."""
    out = []
    while b is not a:
        if not (b.op == 'call' and b.a[0].op == 'global' and b.a[1] and b.a[0].a[0].startswith('builtins.')):
            return None
        out.append(b.a[0].a[0])
        b = b.a[1][0][1]
    return out


def unordered(a):
    if a.op == 'call' and a.a[0].op == 'attr':
        return a.a[0].a[1] in ('keys', 'values', 'items', 'difference', 'union', 'intersection')
    return a.op in ('setof', 'map') or callee_is(a, 'builtins.set', 'builtins.frozenset', 'builtins.sorted', 'builtins.dict') or a.op == 'bin' and any(unordered(x) for x in a.a[1:])


def both_last(a, b):
    """The last element, taken out and looked at."""
    return a.op == 'call' and callee_is(a, '.pop') and not a.a[1] and b.op == 'sub' and is_const(b.a[1]) and cval(b.a[1]) == -1 and a.a[0].a[0] is b.a[0]


def rearranged(a, b):
    """An ordered collection in sorted order."""
    c = chain_down(b, a)
    return bool(c) and 'builtins.sorted' in c and not unordered(a)


def thinned(a, b):
    """The distinct ones of the elements a sequence is made from."""
    c = chain_down(b, a)
    return bool(c) and ('builtins.set' in c or 'builtins.frozenset' in c or 'builtins.dict.fromkeys' in c) and not unordered(a)


def skeleton(a):
    if isinstance(a, T):
        return None
    if isinstance(a, tuple):
        return tuple(skeleton(x) for x in a)
    return a


UNARY = {'sqrt': math.sqrt, 'exp': math.exp, 'log': math.log, 'abs': abs, 'square': lambda v: v * v, 'negative': lambda v: -v}


def formula(t, at, known, n=200):
    """The value of an arithmetic expression, given values for what it is made of."""
    if t.op == 'bin' and t.a[0] in ('+', '-', '*', '/'):
        x, y = formula(t.a[1], at, known), formula(t.a[2], at, known)
        return x + y if t.a[0] == '+' else x - y if t.a[0] == '-' else x * y if t.a[0] == '*' else x / y
    if t.op == 'bin' and t.a[0] == '**' and is_const(t.a[2]):
        return formula(t.a[1], at, known) ** formula(t.a[2], at, known)
    if t.op == 'neg':
        return -formula(t.a[0], at, known)
    if is_const(t):
        v = cval(t)
        if type(v) not in (int, float):
            raise TypeError
        return v
    if t.op == 'call' and t.a[0].op == 'global' and len(t.a[1]) == 1 and t.a[0].a[0].split('.')[0] in ('numpy', 'tensorflow', 'math'):
        f = UNARY.get(t.a[0].a[0].rsplit('.', 1)[1])
        if f is not None:
            return f(formula(t.a[1][0][1], at, known))
    if t not in known:
        known[t] = at()
    return known[t]


def alike(a, b, assume=TRUE):
    """Whether two formulas over the same independent things are the same function of them; None if that is not known."""
    rnd = random.Random(1)
    seen = 0
    for lo, hi in [(0.1, 0.9)] * 4 + [(1.1, 3.0)] * 4:
        ka = {}
        at = lambda: rnd.uniform(lo, hi)  # noqa: E731
        try:
            x = formula(a, at, ka)
            kb = dict(ka)
            y = formula(b, at, kb)
        except TypeError:
            return None
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        if len(ka) > 8 or not ka or set(kb) != set(ka):
            return None
        ats = set(ka)
        if len(ats) < len(ka) or isinstance(x, complex) or isinstance(y, complex):
            return None
        if not all(free(t) for t in ats) or len({t.a[0] for t in ats if t.op == 'call'}) > 1:
            return None
        if any(ats & set(walk(t)) - {t} for t in ats) or any(x.op == 'eq' and ats & set(walk(x)) for x in atoms_of(assume, {})):
            return None
        far = abs(x - y) / max(abs(x), abs(y), 1e-3)
        if far > 1e-6:
            return False
        if far > 1e-10:
            return None
        seen += 1
    return True if seen >= 2 else None


def free(t):
    """Something that can have any value, whatever the others are."""
    if t.op == 'call':
        return t.a[0].op == 'global' and len(t.a[1]) == 1 and free(t.a[1][0][1])
    return t.op in ('param', 'elem') or t.op == 'attr' and t.a[0].op in ('param', 'elem') or t.op == 'sub' and t.a[0].op in ('param', 'attr', 'elem') and fixed(t.a[1])


def fixed(t):
    return is_const(t) or t.op == 'tup' and all(is_const(x) for x in t.a)


def ac_diff(a, b, op):
    def flat(t):
        if t.op == 'bin' and t.a[0] == op:
            return flat(t.a[1]) + flat(t.a[2])
        return [t]
    xs, ys = flat(a), flat(b)
    for x in list(xs):
        if x in ys:
            xs.remove(x)
            ys.remove(x)
    return xs, ys


def merge_exclusive(ps):
    """The same element under conditions of which at most one holds is one element under either."""
    def excl(c, d):
        g = mk_and(c, d)
        return g is FALSE or len(atoms_of(g, {})) <= 16 and relation(g, FALSE) == (True, True)

    def cond_of(p):
        return p[4] if p[0] == 'manykv' else p[3] if p[0] in ('many', 'manysplat') else TRUE
    ps = list(ps)
    i = 0
    while i < len(ps):
        p = ps[i]
        if p[0] in ('many', 'manysplat') and p[2] == ():
            for j in range(i + 1, len(ps)):
                q = ps[j]
                if q[:3] == p[:3] and excl(p[3], q[3]) and (all(excl(cond_of(r), q[3]) for r in ps[i + 1:j]) or all(excl(cond_of(r), p[3]) for r in ps[i + 1:j])):
                    n = p[:3] + (mk_or(p[3], q[3]),) + p[4:]
                    k = i if all(excl(cond_of(r), q[3]) for r in ps[i + 1:j]) else j
                    ps[k] = n
                    del ps[j if k == i else i]
                    i -= 1
                    break
        i += 1
    return ps


def never_any(g):
    """What no element of a loop is, in the cases in which the loop runs."""
    out = []
    for x in conj(g):
        if x.op in ('and', 'or'):
            for y in x.a:
                out += never_any(y)
        elif x.op == 'not' and x.a[0].op == 'any':
            out.append(x.a[0])
    return out


def exclusive_reorder(pa, pb):
    """Every pair whose order differs has contradictory conditions."""
    def cond_of(p):
        return p[4] if p[0] == 'manykv' else p[3] if p[0] in ('many', 'manysplat') else TRUE
    for i in range(len(pa)):
        for j in range(i + 1, len(pa)):
            if pb.index(pa[i]) > pb.index(pa[j]):
                g = mk_and(cond_of(pa[i]), cond_of(pa[j]))
                if g is not FALSE and relation(g, FALSE) != (True, True):
                    return False
    return True


def is_subseq(small, big):
    it = iter(big)
    return all(any(x is y or x == y for y in it) for x in small)


def dedupe(ds):
    out, seen = [], set()
    for d in sorted(ds, key=lambda d: not d.dec):
        k = (d.what, d.a, d.b)
        if k not in seen:
            seen.add(k)
            out.append(d)
    return out


def is_logger(n):
    return n.startswith(LOGGERS)


# ------------------------------------------------------------- observations

def root_of(t):
    while True:
        if t.op in ('attr', 'sub', 'slice'):
            t = t.a[0]
        elif t.op in ('carried', 'mut', 'loop'):
            t = t.a[0]
        elif t.op == 'call' and t.a[0].op == 'attr':
            t = t.a[0].a[0]
        elif t.op == 'enter':
            t = t.a[0]
        else:
            return t


def updated_thing(t):
    """The object of which a term is what updates have made of it."""
    while t.op in ('mut', 'phi'):
        r = {updated_thing(x) for x in (t.a[:1] if t.op == 'mut' else t.a[1:])}
        if len(r) > 1:
            break
        t = r.pop()
    return t


FRESH_ARRAYS = {'numpy.' + x for x in ('array', 'zeros', 'zeros_like', 'ones', 'ones_like', 'empty', 'empty_like', 'full', 'full_like', 'copy', 'arange')}


HASHES = tuple('hashlib.' + x for x in ('sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'md5', 'blake2b', 'blake2s', 'new'))


def is_local_container(t, shared=()):
    r = t
    while r not in shared and r.op in ('carried', 'mut', 'loop'):
        r = r.a[0]
    if r in shared:
        return False
    if r.op in ('seq', 'map', 'setof', 'tup', 'const', 'concat'):
        return True
    if r.op == 'phi':
        return is_local_container(r.a[1], shared) or is_local_container(r.a[2], shared)
    if r.op == 'call' and r.a[0].op == 'global' and r.a[0].a[0] in ('builtins.list', 'builtins.dict', 'builtins.set', 'collections.defaultdict', 'collections.OrderedDict',
                                                                  'collections.Counter', 'collections.deque', 'builtins.sorted', 'copy.copy') + HASHES:
        return True
    if r.op == 'call' and r.a[0].op == 'global' and r.a[0].a[0] in FRESH_ARRAYS:
        return True
    if r.op == 'call' and r.a[0].op == 'attr' and r.a[0].a[1] == 'copy' and not r.a[1]:
        return True
    return False


def clean_ctx(ctx):
    out = []
    for c in ctx:
        if c[0] == 'with':
            t = c[1]
            if t.op == 'call' and callee_is(t, '.name_scope', '.variable_scope', '.name_scope_v2'):
                continue
            out.append(('with', t))
        elif c[0] == 'deferred':
            out.append(c)
        elif c[0] == 'finally':
            out.append(('finally',))
        elif c[0] == 'try':
            out.append(('try', tuple(sorted(set(sum(c[1], ())))), c[2]))
    return tuple(out)


class Obs:
    """Observable facts of one function."""

    def __init__(self, s):
        self.s = s
        self.ret = s.ret
        self.raises = {}
        self.stores = {}
        self.calls = []
        self.withs = []
        self.allcalls = {}
        self.order = []
        self.dels = []
        self.taken, self.shrunk = {}, set()
        cells = getattr(s, 'cells', {})
        used = self.used = self.used_terms(s)
        absorbed = {x.a[0][0][1] for x in used if x.op in ('map', 'seq', 'setof') and len(x.a[0]) > 1 and x.a[0][0][0] == 'splat'}
        self.phase = ()
        scope = any('contextmanager' in ast.unparse(d) for d in getattr(s.fi.node, 'decorator_list', ()))
        for e in s.effects:
            g = e.guard()
            if e.kind in ('raise', 'assert'):
                if e.kind == 'assert':
                    exc = 'AssertionError'
                    g = mk_and(g, mk_not(e.term))
                else:
                    t = e.term
                    exc = show(t.a[0] if t.op == 'call' else t, 4)
                if g is FALSE:
                    continue
                dk = tuple(c for c in e.ctx if c[0] == 'deferred')
                k = (exc, dk, tuple(e.loops))
                if k in self.raises:
                    self.raises[k] = (mk_or(self.raises[k][0], g), self.raises[k][1])
                else:
                    self.raises[k] = (g, e)
                self.order.append((e, ('raise', exc)))
            elif e.kind == 'setattr':
                b, n, v = e.term.a
                self.store(('attr', b, n), v, g, e)
                self.order.append((e, ('setattr', b, n)))
            elif e.kind == 'setitem':
                b, i, v = e.term.a
                if is_local_container(b, s.shared):
                    continue
                self.store(('item', updated_thing(b), i), v, g, e)
                self.order.append((e, ('setitem', b)))
            elif e.kind in ('setglobal', 'setnonlocal'):
                self.store((e.kind, e.term.a[0]), e.term.a[1], g, e)
                self.order.append((e, ('set', e.term.a[0])))
            elif e.kind == 'del':
                if e.term.op == 'sub' and is_local_container(e.term.a[0], s.shared):
                    continue
                self.dels.append((e.term, g, e))
                self.shrunk.add(peel(e.term.a[0]) if e.term.op == 'sub' else e.term)
                self.order.append((e, ('del', e.term)))
            elif e.kind == 'with':
                if e.term.op == 'call' and callee_is(e.term, '.name_scope', '.variable_scope', '.name_scope_v2'):
                    continue
                self.withs.append((e.term, g, e))
                self.order.append((e, ('with', e.term)))
            elif e.kind == 'yield':
                if scope:
                    # what a scope installs and what it restores are different facts
                    self.phase = ('after yield',)
                self.order.append((e, ('yield', e.term)))
            elif e.kind == 'call':
                t = e.term
                self.allcalls.setdefault(t, []).append(e)
                if t.a[0].op == 'attr' and t.a[0].a[1] in MUT_ANY:
                    r = peel(t.a[0].a[0])
                    if t.a[0].a[1] in ('pop', 'popitem', 'popleft') and (r.op == 'param' and r.a[0] not in ('self', 'cls') or r.op == 'attr' and r.a[0] is param('self')):
                        self.taken[r, t.a[0].a[1], bool(e.loops)] = e
                    else:
                        self.shrunk.add(r)
                if t.a[0].op == 'global' and is_logger(t.a[0].a[0]):
                    continue
                if t.a[0].op == 'attr' and t.a[0].a[1] in MUT_ANY and is_local_container(t.a[0].a[0], s.shared):
                    continue
                if t.a[0].op == 'attr' and t.a[0].a[1] in MUT_ANY and t.a[0].a[0].op == 'call' and t.a[0].a[0] in absorbed:
                    # an update of what a call returned, seen in the value that is used
                    continue
                stmt = isinstance(e.node, ast.Call) and id(e.node) in STMT_CALLS(e.fn.mod)
                if stmt or (t not in used and effectful(t)):
                    self.calls.append((t, g, e))
                    self.order.append((e, ('call', t)))
                elif graph_read(t) or graph_write(t) or touches(t) or on_stateful(t):
                    self.order.append((e, ('call', t)))

        # pipeline steps nothing else builds on
        steps = [(e.term, e.guard(), e) for e in s.effects if e.kind == 'step' and e.term not in used]
        inner = set(walk(*[k for t, _, _ in steps for k in kids(t)]))
        self.steps = [x for x in steps if x[0] not in inner]
        # what a container attribute holds in the end, not what it started from
        for k, (v, g, lo, e) in list(self.stores.items()):
            if k[0] == 'attr' and k[3] == () and not lo:
                c = cells.get(('@', k[1], k[2]))
                if c is not None and c.op == 'phi':
                    for x in conj(g):
                        c = restrict(c, x.a[0], False) if x.op == 'not' else restrict(c, x, True)
                if c is not None and c is not v and c.op in ('seq', 'map', 'setof', 'mut', 'loop'):
                    self.stores[k] = (c, g, lo, e)

    def used_terms(self, s):
        """Values that something observable depends on."""
        roots = [s.ret]
        for e in s.effects:
            if e.kind in ('call', 'step'):
                roots.extend(kids(e.term) if e.kind == 'call' else ())
            else:
                roots.append(e.term)
            roots.extend(e.guards)
            roots.extend(e.loops)
            roots.extend(c[1] for c in e.ctx if c[0] == 'with')
        return set(walk(*roots))

    def store(self, key, v, g, e):
        dk = tuple(c for c in e.ctx if c[0] in ('deferred', 'handler'))
        key = key + (dk + self.phase,)
        lo = tuple(e.loops)
        if key in self.stores:
            old = self.stores[key]
            common = set(conj(g)) & set(conj(old[1]))
            rel = mk_and(*[x for x in conj(g) if x not in common])
            val = mk_phi(rel, v, old[0]) if lo == old[2] else T('then', old[0], v)
            self.stores[key] = (val, mk_or(old[1], g), lo, e)
        else:
            self.stores[key] = (v, g, lo, e)


def effectful(t):
    """A call of the code base (or of a method of one of its objects) made for its effect."""
    f = t.a[0]
    if f.op == 'global':
        # an object made and not used is nothing
        return f.a[0].startswith(PKG) and not f.a[0].rsplit('.', 1)[1].lstrip('_')[:1].isupper()
    if f.op == 'attr':
        if f.a[1] in PURE_METHODS:
            return False
        return root_of(f.a[0]).op == 'param' or (f.a[0].op == 'call' and f.a[0].a[0].op == 'global' and f.a[0].a[0].a[0].startswith(PKG))
    return False


PURE_METHODS = {'items', 'keys', 'values', 'get', 'copy', 'format', 'join', 'split', 'strip', 'startswith', 'endswith', 'get_shape', 'as_list',
                'tolist', 'lower', 'upper', 'index', 'count', 'encode', 'decode', 'rsplit', 'replace', 'rstrip', 'lstrip'}


def conj(g):
    return g.a if g.op == 'and' else (g,)


_stmt_cache = {}


def STMT_CALLS(mod):
    r = _stmt_cache.get(id(mod.tree))
    if r is None:
        r = {id(n.value) for n in ast.walk(mod.tree) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)}
        _stmt_cache[id(mod.tree)] = r
    return r


# --------------------------------------------------------------- comparison

class Finding:
    __slots__ = ('qual', 'fact', 'diff', 'loc', 'dec')

    def __init__(self, qual, fact, diff, loc, dec):
        self.qual, self.fact, self.diff, self.loc, self.dec = qual, fact, diff, loc, dec

    def __repr__(self):
        return '%s: %s in %s: %s' % (self.loc, self.fact, self.qual.replace(PKG + '.', ''), self.diff)

    def key(self):
        return '%s|%s|%s' % (self.qual, self.fact, getattr(self.diff, 'what', self.diff))


def compare(qual, fi, ra, rb, vocab):
    """Reference summary ra vs found summary rb -> (number of facts, [Finding])."""
    A, B = Obs(ra), Obs(rb)
    out = []
    n = 0
    UA = mk_or(*[mk_any(g, k[2]) for k, (g, _) in A.raises.items()])
    UB = mk_or(*[mk_any(g, k[2]) for k, (g, _) in B.raises.items()])
    assume = TRUE
    if UA is not FALSE or UB is not FALSE:
        assume = mk_and(mk_not(UA), mk_not(UB))
        if len(atoms_of(assume, {})) > 24 or assume is FALSE:
            assume = TRUE

    known = []

    def terms_of():
        if not known:
            for s in (ra, rb):
                known.append(set(walk(s.ret, *[x for e in s.effects for x in (e.term,) + tuple(e.guards) + tuple(e.loops)])))
        return known[0]

    def mixed_up(d):
        """One value of the reference where the reference has another one, both of which are still there."""
        if not isinstance(d.a, T) or not isinstance(d.b, T):
            return False
        if d.what == 'arithmetic':
            terms_of()
            return all(x in k for x in (d.a, d.b) for k in known)
        if d.what == 'call arguments' and d.a.op == d.b.op == 'call' and d.a.a[0] is d.b.a[0] and d.a.a[0].op == 'global' and d.a.a[0].a[0].startswith(PKG):
            # what a function made of something against what it made of that in turn
            terms_of()
            return all(x in k for x in (d.a, d.b) for k in known)
        if d.what != 'value':
            return False
        kinds = ('elem', 'param', 'call', 'sub', 'attr')
        if both_last(d.a, d.b) or both_last(d.b, d.a):
            return False
        if d.a.op not in kinds or d.b.op not in kinds + ('phi',) or d.b.op == 'phi' and any(d.a is x or d.a in kids(x) for x in choice_leaves(d.b)) or d.a in kids(d.b) or d.b in kids(d.a):
            return False
        terms_of()
        return all(x in k for x in (d.a, d.b) for k in known)

    def updated(d):
        # a variable of a loop before its update, against the same one after it
        for x, y in ((d.a, d.b), (d.b, d.a)):
            if isinstance(x, T) and x.op == 'carried' and all(x in r.advanced and r.advanced[x][0] is y for r in (ra, rb)):
                return True
        return False

    def of_loops():
        # what a loop tests to go on may be tested elsewhere as well
        return terms_of() - set(walk(*[y for x in terms_of() if x.op in ('while', 'until') for y in atoms_of(x.a[0], {})]))
    global KNOWN, FILLED
    KNOWN = of_loops
    FILLED = {k[2] for k in set(A.stores) ^ set(B.stores) if k[0] == 'attr'}

    def add(fact, ds, loc):
        for d in dedupe(ds):
            out.append(Finding(qual, fact, d, loc, d.dec or promote(d, vocab) or mixed_up(d) or updated(d)))

    # raised inside a loop, or after asking whether any element would
    for k in {x[:2] for x in set(A.raises) ^ set(B.raises)}:
        for S in (A, B):
            mine = [x for x in S.raises if x[:2] == k]
            if not mine or any(l.op in ('while', 'until', 'its') for x in mine for l in x[2]):
                break
        else:
            for S in (A, B):
                gs = [(x, S.raises.pop(x)) for x in list(S.raises) if x[:2] == k]
                S.raises[k + ((),)] = (mk_or(*[mk_any(g, x[2]) for x, (g, _) in gs]), gs[0][1][1])
    # raises
    n += len(A.raises)
    D0 = Differ(vocab)
    for k, (g, e) in A.raises.items():
        if k not in B.raises:
            others = [x for x in B.raises if x not in A.raises]
            mine = [x for x in A.raises if x not in B.raises]
            if len(others) == 1 and len(mine) == 1 and others[0][0] == k[0] and others[0][1] == k[1]:
                add('raise ' + k[0], D0.iters(k[2], others[0][2]) + D0.cond(g, B.raises[others[0]][0]), B.raises[others[0]][1].loc)
            elif others:
                add('raise ' + k[0], [Diff('exception type', k[0], others[0][0], len(others) == len(mine) == 1 and B.raises[others[0]][0] is g and others[0][2] == k[2])], fi.loc)
            else:
                add('raise ' + k[0], [Diff('no longer raised', g, 'never', not opaque(g))], fi.loc)
            continue
        g2, e2 = B.raises[k]
        if g is g2:
            continue
        oa = mk_or(*[x if kk[2] == k[2] else mk_any(x, kk[2]) for kk, (x, _) in list(A.raises.items()) + list(B.raises.items()) if kk != k])
        asm = mk_not(oa) if oa is not FALSE and len(atoms_of(oa, {})) <= 24 else TRUE
        D = Differ(vocab, asm) if asm is not FALSE else D0
        add('raise ' + k[0], D.cond(g, g2, 'condition'), e2.loc)
    for k, (g, e) in B.raises.items():
        if k not in A.raises:
            others = [x for x in A.raises if x not in B.raises]
            add('raise ' + k[0], [Diff('newly raised', 'never', g, not others and not any(x.op in OPAQUE and x.op not in ('caught', 'exc') for x in walk(g)))], e.loc)
    # result
    n += 1
    D = Differ(vocab, assume)
    if A.ret is not B.ret:
        add('result', D.diff(A.ret, B.ret), fi.loc)
    # stores
    n += len(A.stores)
    for k, (v, g, lo, e) in A.stores.items():
        if k not in B.stores:
            extra = [x for x in B.stores if x not in A.stores and x[0] == k[0]]
            gone = [x for x in A.stores if x not in B.stores and x[0] == k[0]]
            if len(extra) == len(gone) == 1:
                k2 = extra[0]
                ds = []
                for x, y in zip(k, k2):
                    if isinstance(x, T) and isinstance(y, T):
                        ds += D.diff(x, y)
                    elif x != y:
                        ds.append(Diff('stored location', x, y, False))
                v2, g2, lo2, e2 = B.stores[k2]
                add('store to ' + keyname(k), ds + D.diff(v, v2) + D.cond(g, g2), e2.loc)
            else:
                add('store to ' + keyname(k), [Diff('no longer stored', v, 'absent', not extra and not has_opaque_extra(A, B)
                                                      and not (k[0] == 'item' and (is_local_container(root_of(k[1]), A.s.shared) or filled(k[1], A, B))))], fi.loc)
            continue
        v2, g2, lo2, e2 = B.stores[k]
        ds = []
        if v is not v2:
            asm = mk_and(assume, g, g2)
            D2 = Differ(vocab, asm) if asm is not FALSE and len(atoms_of(asm, {})) <= 26 else D
            ds += D2.diff(v, v2)
        if g is not g2:
            ds += D.cond(g, g2)
        if lo != lo2:
            ds += D.iters(lo, lo2)
        add('store to ' + keyname(k), ds, e2.loc)
        ctxcmp(add, 'store to ' + keyname(k), [e], [e2], D)
    for k, (v, g, lo, e) in B.stores.items():
        if k not in A.stores:
            gone = [x for x in A.stores if x not in B.stores and x[0] == k[0]]
            name = k[2] if k[0] == 'attr' else None
            rt = root_of(k[1]) if isinstance(k[1], T) else None
            dec = not gone and not opaque(v) and (name is None or ('.' + name) in vocab) and (rt is None or rt.op in ('param', 'global'))
            if k[0] == 'item' and rt is not None and rt.op != 'param':
                dec = False
            add('store to ' + keyname(k), [Diff('newly stored', 'absent', v, dec)], e.loc)
    # deletions
    n += len(A.dels)
    setcmp(add, 'deletion', A.dels, B.dels, D, vocab, extra_dec=True, fi=fi)
    # context managers
    n += len(A.withs)
    setcmp(add, 'context manager', A.withs, B.withs, D, vocab, extra_dec=False, fi=fi)
    # statement-level calls
    n += len(A.calls)
    setcmp(add, 'call', A.calls, B.calls, D, vocab, extra_dec=True, fi=fi, found_all=B.allcalls, ref_all=A.allcalls, ctx=True)
    # pipeline steps without a consumer
    n += len(A.steps)
    setcmp(add, 'pipeline step', A.steps, B.steps, D, vocab, extra_dec=False, fi=fi)
    # contexts of value calls present on both sides
    for t, es in A.allcalls.items():
        fs = B.allcalls.get(t)
        if not fs:
            continue
        if any(e.ctx for e in es) or any(f.ctx for f in fs):
            n += 1
            ctxcmp(add, 'call ' + show(t.a[0], 3), es, fs, D)
    # state carried from one iteration to the next
    for t, ups in ra.loopvars.items():
        us = rb.loopvars.get(t)
        if us is None and len(ups) == 1 and t in A.used and t in B.used and t not in rb.advanced:
            n += 1
            add('loop state ' + show(t.a[0], 3)[:60], [Diff('no longer advanced', ups[0][0], t, not empty(peel(t)) and peel(t).op not in ('seq', 'map', 'setof'))], fi.loc)
        if us is None or len(ups) != 1 or len(us) != 1 or t not in A.used or t not in B.used:
            continue
        n += 1
        if ups[0][0] is not us[0][0]:
            # the next iteration sees it only if there is one
            asm = mk_and(ups[0][3], us[0][3])
            D1 = Differ(vocab, asm) if asm is not FALSE and len(atoms_of(asm, {})) <= 20 else D0
            x, y = ups[0][0], us[0][0]
            for c in conj(asm) if asm is not FALSE else ():
                at, val = (c.a[0], False) if c.op == 'not' else (c, True)
                x, y = restrict(x, at, val), restrict(y, at, val)
            add('loop state ' + show(t.a[0], 3)[:60], D1.diff(x, y), '%s:%d' % (us[0][1].mod.relpath, us[0][2].lineno))
    # what is taken out of a container of the caller
    gone = {k: e for k, e in A.taken.items() if k[0] not in B.shrunk and not any(r is k[0] and many >= k[2] for r, _, many in B.taken)}
    n += len(A.taken)
    for (r, m, _), e in gone.items():
        add('%s of %s' % (m, show(r, 3)), [Diff('no longer taken out', e.term, 'absent', True)], fi.loc)
    # objects made anew in every iteration
    for t, es in A.allcalls.items():
        if t.a[0].op == 'global' and t.a[0].a[0] in STATEFUL and t in B.allcalls:
            lo = min(len(e.loops) for e in es)
            fs2 = B.allcalls[t]
            if len(es) == len(fs2) == 1 and len(fs2[0].loops) > lo and tuple(fs2[0].loops[:lo]) == tuple(es[0].loops) and es[0].guard() is fs2[0].guard():
                n += 1
                add('call ' + show(t.a[0], 3), [Diff('made anew in every iteration', T('its', *es[0].loops), T('its', *fs2[0].loops), True)], fs2[0].loc)
            if len(es) == len(fs2) == 1 and len(fs2[0].loops) < lo and tuple(es[0].loops[:len(fs2[0].loops)]) == tuple(fs2[0].loops):
                n += 1
                add('call ' + show(t.a[0], 3), [Diff('one object for all iterations', T('its', *es[0].loops), T('its', *fs2[0].loops), True)], fs2[0].loc)
    # functions that read a loop's variable when they are called, after the loop has moved on
    late = late_closures(fi.node)
    if len(late) > len(late_closures(ra.fi.node)):
        v, node = late[-1]
        add('closure', [Diff('reads the variable %s of the loop when it is called' % v, 'value of the iteration', 'value of the last iteration', True)], '%s:%d' % (fi.mod.relpath, node.lineno))
    # a container that was copied, now shared with the one that is updated
    gone = copied(ra.fi.node) - copied(fi.node)
    if gone:
        before = [x[:2] for x in shared(ra.fi.node)]
        for x, c, node in shared(fi.node):
            if c in gone and (x, c) not in before:
                add('container ' + x, [Diff('no longer a copy of %s, which is updated' % c, 'copy', c, True)], '%s:%d' % (fi.mod.relpath, node.lineno))
    # iteration in arbitrary order
    if not any(arbitrary(t.a[1]) for t in ra.advanced):
        for t, (new, st, g) in rb.advanced.items():
            if arbitrary(t.a[1]) and ordered_update(new, t):
                add('loop state ' + show(t.a[0], 3)[:60], [Diff('updated in an arbitrary order', 'order of the elements', T('its', *t.a[1]), True)], '%s:%d' % (fi.mod.relpath, st.lineno))
    # loops left early
    base = lambda i: base(i.a[1][-1]) if i.op == 'until' and isinstance(i.a[1], tuple) and i.a[1] else i
    left = [e for e in ra.effects if e.kind == 'break' and e.loops and e.guard() is not TRUE]
    if left and not any(e.kind == 'break' for e in rb.effects):
        its = {i for e in rb.effects for i in e.loops} | {i for x in walk(rb.ret) if x.op in ('any', 'carried', 'loop') for y in x.a if isinstance(y, tuple) for i in y if isinstance(i, T)}
        seen = set(walk(rb.ret, *[x for e in rb.effects for x in (e.term,) + tuple(e.guards) + tuple(e.loops)], *[x for v, _, g in rb.advanced.values() for x in (v, g)]))
        for e in left:
            n += 1
            if base(e.loops[-1]) in its and any(x not in seen for x in atoms_of(e.guard(), {})):
                add('loop', [Diff('no longer left early', e.guard(), 'never', True)], fi.loc)
    same = lambda s, t: sum((x.a[0], x.a[1], x.a[3]) == (t.a[0], t.a[1], t.a[3]) for x in s.advanced)
    for f in list(out):
        t = f.diff.b
        if f.diff.what == 'update added' and not f.diff.dec and isinstance(t, T) and t.op == 'carried' and f.diff.a is t.a[0] and t in ra.advanced and t in rb.advanced and ra.advanced[t][0] is rb.advanced[t][0]:
            # both move on in the same way, from what the reference keeps looking at
            add('loop state ' + show(t.a[0], 3)[:60], [Diff('taken as it is in the iteration', t.a[0], t, True)], '%s:%d' % (fi.mod.relpath, rb.advanced[t][1].lineno))
            continue
        if f.diff.what == 'update added' and not f.diff.dec and isinstance(t, T) and t.op == 'carried' and is_const(t.a[0]) and f.diff.a is t.a[0] and same(rb, t) > same(ra, t):
            # where the reference starts from the same value in every iteration
            if t in rb.advanced:
                new, st, g = rb.advanced[t]
                if any(x.op in ('const', 'attr', 'sub', 'param', 'elem') and x is not t.a[0] for x in leaves(new, g)):
                    add('loop state ' + show(t.a[0], 3)[:60], [Diff('kept from one iteration to the next', t.a[0], new, True)], '%s:%d' % (fi.mod.relpath, st.lineno))
    # order
    m, ds = ordering(A, B)
    n += m
    out.extend(Finding(qual, 'order', d, loc, d.dec) for d, loc in ds)
    return n, uniq(out)


def arbitrary(its):
    return isinstance(its, tuple) and any(x.op == 'setof' or x.op == 'call' and callee_is(x, 'builtins.set', 'builtins.frozenset') for x in its)


def ordered_update(new, car):
    """Is what a loop makes of its variable dependent on the order of the iterations?"""
    for x in leaves(new, TRUE):
        if x.op == 'mut' and x.a[0] is car and x.a[1] == 'update' and peel(car).op == 'call' and peel(car).a[0].op == 'global' and peel(car).a[0].a[0].startswith('hashlib.'):
            return True
        if x.op == 'concat' and car in kids(x):
            return True
    return False


def stateful(p):
    """Classes whose methods update the object after it was made."""
    out = set()
    for c in p.classes():
        for k in p.mro(c):
            ms = getattr(k, 'methods', {})
            for name, m in ms.items():
                if name == '__init__':
                    continue
                for n in ast.walk(m.node):
                    if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)) and self_rooted(n) \
                            or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT_ANY and isinstance(n.func.value, (ast.Attribute, ast.Subscript)) and self_rooted(n.func.value):
                        out.add(c.qual)
    return out


def self_updates(p):
    """class -> (methods that update the object, names of the methods its code calls)"""
    out = {}
    for c in p.classes():
        muts, calls, own = set(), set(), {}
        for k in p.mro(c):
            for name, m in getattr(k, 'methods', {}).items():
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                        calls.add(n.func.attr)
                        if isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
                            own.setdefault(name, set()).add(n.func.attr)
                        if n.func.attr in MUT_ANY and self_rooted(n.func.value) and isinstance(n.func.value, (ast.Attribute, ast.Subscript)) and name != '__init__':
                            muts.add(name)
                    elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)) and self_rooted(n) and name != '__init__':
                        muts.add(name)
        todo = True
        while todo:
            todo = {m for m, cs in own.items() if m not in muts and m != '__init__' and cs & muts}
            muts |= todo
        out[c.qual] = muts, calls
    return out


def works_on(x, y):
    """Does the method call y update the object whose method x asks?"""
    f, g = x.a[0], y.a[0]
    if f.op != 'attr' or g.op != 'attr' or f.a[0].op != 'call' or g.a[0].op != 'call' or f.a[0].a[0].op != 'global' or g.a[0].a[0].op != 'global':
        return False
    if f.a[0] not in [v for _, v in g.a[0].a[1]]:
        return False
    muts = UPDATES.get(f.a[0].a[0].a[0], ((), ()))[0]
    return bool(muts) and f.a[1] not in muts and any(m in UPDATES.get(g.a[0].a[0].a[0], ((), ()))[1] for m in muts)


def on_stateful(t):
    f = t.a[0]
    return f.op == 'attr' and f.a[0].op == 'call' and f.a[0].a[0].op == 'global' and (f.a[0].a[0].a[0] in STATEFUL or any(
        v.op == 'call' and v.a[0].op == 'global' and v.a[0].a[0] in STATEFUL for _, v in f.a[0].a[1]))


def self_rooted(n):
    while isinstance(n, (ast.Attribute, ast.Subscript)):
        n = n.value
    return isinstance(n, ast.Name) and n.id == 'self'


def late_closures(fn):
    """Functions a loop stores away that read a variable which the loop binds anew in every iteration."""
    out = []
    for loop in ast.walk(fn):
        if isinstance(loop, (ast.For, ast.While)):
            body, bound = loop.body, set()
            for st in body + ([ast.Expr(loop.target)] if isinstance(loop, ast.For) else []):
                bound |= {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            local = {n.name: n for st in body for n in ast.walk(st) if isinstance(n, ast.FunctionDef)}
            kept = []
            for st in body:
                for n in ast.walk(st):
                    if isinstance(n, ast.Assign) and any(isinstance(t, (ast.Subscript, ast.Attribute)) for t in n.targets):
                        kept.append(n.value)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'add', 'insert', 'setdefault', 'appendleft'):
                        kept.extend(n.args)
        elif isinstance(loop, (ast.ListComp, ast.SetComp, ast.DictComp)):
            bound = {n.id for g in loop.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            local, kept = {}, [loop.value if isinstance(loop, ast.DictComp) else loop.elt]
        else:
            continue
        for v in kept:
            v = local.get(v.id, v) if isinstance(v, ast.Name) else v
            for f in [v.body, v.orelse] if isinstance(v, ast.IfExp) else [v]:
                if not isinstance(f, (ast.Lambda, ast.FunctionDef)):
                    continue
                a = f.args
                own = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
                fb = f.body if isinstance(f.body, list) else [f.body]
                own |= {n.id for st in fb for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                free = {n.id for st in fb for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} - own
                for x in sorted(free & bound):
                    out.append((x, f))
    return out


def place(n):
    while isinstance(n, ast.Attribute):
        n = n.value
    return isinstance(n, ast.Name)


def copied(fn):
    """The places of which the function takes copies."""
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args and place(n.func.value):
                out.add(ast.unparse(n.func.value))
            elif len(n.args) >= 1 and place(n.args[0]) and ast.unparse(n.func) in COPIERS:
                out.add(ast.unparse(n.args[0]))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and not (n.slice.lower or n.slice.upper or n.slice.step) and place(n.value) and isinstance(n.ctx, ast.Load):
            out.add(ast.unparse(n.value))
        elif isinstance(n, (ast.List, ast.Set)) and len(n.elts) == 1 and isinstance(n.elts[0], ast.Starred):
            out.add(ast.unparse(n.elts[0].value))
        elif isinstance(n, ast.comprehension):
            out.add(ast.unparse(n.iter))
    return out


COPIERS = {'list', 'dict', 'set', 'sorted', 'copy.copy', 'copy.deepcopy', 'np.copy', 'np.array', 'collections.OrderedDict'}


def shared(fn):
    """Two names of one container, updated under one of them and read under the other."""
    stmts = []

    def flat(body, loops):
        for st in body:
            tests = [x for k in ('test', 'iter') for x in [getattr(st, k, None)] if x is not None]
            inner = [b for k in ('body', 'orelse', 'finalbody') for b in [getattr(st, k, None)] if b] if isinstance(st, ast.stmt) else []
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                continue
            stmts.append((st, [st] if not inner else tests + list(getattr(st, 'items', [])), loops))
            mine = loops + ((st,) if isinstance(st, (ast.For, ast.While)) else ())
            for b in inner:
                flat(b, mine)
            for h in getattr(st, 'handlers', []):
                flat(h.body, mine)
    flat(fn.body, ())

    def updates(nodes, name):
        for x in nodes:
            for n in ast.walk(x):
                if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load) and ast.unparse(n.value) == name:
                    return True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT_ANY and ast.unparse(n.func.value) == name:
                    return True
        return False

    def reads(nodes, name):
        return any(isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) and ast.unparse(n) == name for x in nodes for n in ast.walk(x))

    def binds(nodes, name):
        return any(isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Store) and ast.unparse(n) == name for x in nodes for n in ast.walk(x))
    def seen(way, one, other):
        done = False
        for _, nodes, _ in way:
            if done and reads(nodes, other):
                return True
            if binds(nodes, one) or binds(nodes, other):
                return False
            done = done or updates(nodes, one)
        return False
    out = []
    for i, (st, _, loops) in enumerate(stmts):
        if not (isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and place(st.value) and isinstance(st.value, (ast.Name, ast.Attribute))):
            continue
        x, c = st.targets[0].id, ast.unparse(st.value)
        if x == c:
            continue
        ways = [stmts[i + 1:]]
        if loops:
            mine = [k for k, z in enumerate(stmts) if loops[-1] in z[2]]
            head = next(z for z in stmts if z[0] is loops[-1])
            ways.append([stmts[k] for k in mine if k > i] + [head] + [stmts[k] for k in mine if k < i])
        for one, other in ((x, c), (c, x)):
            if any(seen(way, one, other) for way in ways):
                out.append((x, c, st))
                break
    return out


def choice_leaves(t):
    return [y for x in t.a[1:] for y in choice_leaves(x)] if t.op == 'phi' else [t]


def swapped_order(a, b):
    """Two functions of the code base applied the other way round."""
    def inner(t):
        for k, x in t.a[1]:
            if x.op == 'call' and x.a[0].op == 'global':
                yield k, x
    if not all(x.op == 'call' and x.a[0].op == 'global' and x.a[0].a[0].startswith(PKG) for x in (a, b)) or a.a[0] is b.a[0]:
        return False
    for k, x in inner(a):
        for j, y in inner(b):
            if x.a[0] is b.a[0] and y.a[0] is a.a[0]:
                return any(v is w for v in dict(x.a[1]).values() for w in dict(y.a[1]).values())
    return False


def transposed(a, b):
    """Laid out the other way round: a transposition where the reference shapes the data itself."""
    if b.op == 'call' and callee_is(b, 'tensorflow.transpose') and b.a[1][0][0] == 0:
        b = b.a[1][0][1]
    elif b.op == 'attr' and b.a[1] == 'T':
        b = b.a[0]
    else:
        return False
    return a.op == b.op == 'call' and a.a[0] is b.a[0] and callee_is(a, 'tensorflow.reshape', 'numpy.reshape') and a.a[1][0] == b.a[1][0]


def leaves(t, g):
    """The values a chain of conditions and loops can end in, when the condition g holds."""
    if g is FALSE:
        return []
    if t.op == 'phi':
        return leaves(t.a[1], mk_and(g, t.a[0])) + leaves(t.a[2], mk_and(g, mk_not(t.a[0])))
    if t.op == 'loop':
        return leaves(t.a[1], g)
    return [t] if relation(g, FALSE) != (True, True) else []


STRUCT = {'builtins.zip', 'builtins.enumerate', 'builtins.reversed', 'builtins.range', 'builtins.map', 'builtins.filter', 'builtins.any', 'builtins.all'} | NEUTRAL_WRAP | NEUTRAL_ADD


def symbols(t):
    """What a value is made of: inputs, constants, attributes, operations."""
    return symbols_of(walk(t))


_fed = {}


def fed(t):
    """The parameters a value is computed from."""
    r = _fed.get(t)
    if r is None:
        r = _fed[t] = frozenset().union(*[{k.a[0]} if k.op in ('param', 'lparam') else fed(k) for k in kids(t)])
    return r


def symbols_of(nodes):
    out = collections.Counter()
    for x in nodes:
        if x.op == 'global':
            if x.a[0] not in STRUCT and not is_logger(x.a[0]):
                out['g', x.a[0]] += 1
        elif x.op == 'const':
            v = cval(x)
            if v is not None and not isinstance(v, bool) and v not in ('', 0, 1, -1):
                out['c', repr(v)] += 1
        elif x.op in ('param', 'lparam'):
            out['p', x.a[0]] += 1
        elif x.op == 'attr':
            out['a', x.a[1]] += 1
        elif x.op == 'call' and x.a[0].op == 'attr' and x.a[0].a[0] is param('self'):
            out['g', 'self.' + x.a[0].a[1]] += 1
        elif x.op == 'call' and x.a[0].op == 'global' and x.a[0].a[0].startswith(('numpy.', 'tensorflow.')):
            for y in fed(x):
                out['r', x.a[0].a[0], y] += 1
        elif x.op == 'bin':
            out['b', x.a[0]] += 1
        elif x.op in ('lt', 'in', 'neg', 'slice'):
            out['o', x.op] += 1
    return out


HARD = {'opaque', 'unbound', 'while', 'until', 'selfref', 'localclass', 'cmp', 'loop', 'carried', 'caught', 'exc'}
WEAK_NAMES = {'builtins.len', 'builtins.max', 'builtins.min', 'builtins.sum', 'builtins.abs', 'builtins.round', 'builtins.next', 'builtins.iter',
              'builtins.sorted', 'builtins.isinstance', 'builtins.hasattr', 'builtins.getattr', 'builtins.type', 'builtins.divmod', 'builtins.slice'}
WEAK_MODULES = ('operator.', 'functools.', 'itertools.', 'collections.', 'copy.', 'typing.', 'contextlib.', 'builtins.')
WEAK_ATTRS = {'values', 'keys', 'items', 'get', 'index', 'count', 'pop', 'copy', 'append', 'extend', 'update', 'add'}


REDUCERS = {('g', 'builtins.max'), ('g', 'builtins.min'), ('g', 'builtins.sum')}
REDUCER_FORMS = {('g', 'builtins.sorted'), ('o', 'lt'), ('o', 'neg'), ('b', '+'), ('b', '-')}


def weak(s):
    k, v = s[:2]
    if k in ('c', 'b', 'o'):
        return k != 'c' or not v.startswith(("'", 'b'))
    if k == 'g':
        return v in WEAK_NAMES
    return k == 'a' and v in WEAK_ATTRS


def strong(s):
    k, v = s[:2]
    if k == 'c':
        return v.startswith(("'", 'b')) or len(v) > 2
    if k == 'g':
        return not v.startswith(WEAK_MODULES)
    return k == 'p' or k == 'a' and v not in WEAK_ATTRS


def values_of(t):
    """The terms a value is made of, the tests that choose between them left out."""
    seen, stack, out = set(), [t], []
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            stack.extend(x.a[1:])
        else:
            out.append(x)
            stack.extend(kids(x))
    return out


AGGREGATES = {'apache_beam.' + k: k for k in (
    'CombinePerKey', 'CombineGlobally', 'Flatten', 'Distinct', 'GroupByKey', 'CoGroupByKey', 'Reshuffle', 'Filter', 'combiners.Top.Of', 'combiners.Top.PerKey', 'combiners.Top.Largest',
    'combiners.Top.LargestPerKey', 'combiners.Top.Smallest', 'combiners.Top.SmallestPerKey', 'combiners.Count.PerElement', 'combiners.Count.PerKey', 'combiners.Count.Globally',
    'combiners.ToList', 'combiners.ToDict', 'combiners.ToSet', 'combiners.Sample.FixedSizeGlobally', 'combiners.Latest.Globally', 'combiners.Mean.Globally')}
REPLACED = ('value', 'attribute', 'call', 'callee', 'element')


def counting(nodes):
    return any(x.op in ('while', 'until') or x.op in ('carried', 'loop') and 'while' in x.a for x in nodes)


def promote(d, vocab):
    """An unrelated form is a different value when an ingredient is gone and none is new,
    or when the same ingredients are applied in another arrangement."""
    a, b = d.a, d.b
    if not isinstance(a, T) or not isinstance(b, T):
        return False
    if d.what == 'loop entry':
        return False
    na, nb = set(walk(a)), set(walk(b))
    if counting(na) != counting(nb):
        # counting up to a bound and running over a range are not compared
        return False
    if a.op in ('mut', 'loop', 'carried') and b.op in ('mut', 'loop', 'carried') and peel(a) is peel(b):
        # updates of one container: those that are gone took their ingredients with them
        sa, sb = symbols(a), symbols(b)
        if not any(x.op in ('while', 'until') for x in na ^ nb) and not set(sb) - set(sa) and any(strong(x) or x[0] == 'a' for x in set(sa) - set(sb)):
            return True
    if always_something(a, b):
        return True
    if d.what == 'value' and same_for_all(a, b) and not any(x.op == 'global' and (x.a[0].startswith('?') or x.a[0].startswith(PKG) and x.a[0] not in vocab) for x in nb):
        return True
    if reversed_build(a, b) or one_of_parts(a, b) or kept_one(a, b) or inside_cast(a, b):
        return True
    if d.what == 'value' and a in (TRUE, FALSE) and is_cond(b) and all(x.op == 'is' and x.a[0].op == 'param' and x.a[1] is NONE for x in atoms_of(b, {})):
        # a constant against a question of what the caller gave
        return not equivalent(a, b)
    for x in na ^ nb:
        if x.op in HARD or x.op == 'call' and (x.a[0].op == 'attr' and x.a[0].a[1] == '_replace' or x.a[0].op == 'global' and x.a[0].a[0] in ('dataclasses.replace', 'copy.replace')):
            return False
        if x.op == 'global' and (x.a[0].startswith('?') or x.a[0].startswith(PKG) and x.a[0] not in vocab):
            return False
    if d.what.startswith('condition') and a is TRUE and b.op == 'not' and b.a[0].op == 'in':
        # stored only when the container had no such entry before
        c = peel(b.a[0].a[1])
        if c is not b.a[0].a[1] and not empty(c) and c.op in ('call', 'param', 'attr', 'sub'):
            return True
    if first_for_each(a, b):
        return True
    if cut_short(a, b) or other_axis(a, b) or rest_of(a, b) or only_some(a, b) or swapped_order(a, b) or transposed(a, b) or only_counted(a, b) or arbitrary_pick(a, b) or reordered_update(a, b, vocab) or other_component(a, b) or distinct_counted(a, b) or content_asked(a, b):
        return True
    if d.what == 'element' or d.what == 'elements' and a.op in ('seq', 'setof', 'map') and [p[0] for p in a.a[0]] != [p[0] for p in b.a[0] if b.op == a.op]:
        # one spelled out, the other produced by iterating
        return False
    if any(x.op == 'zip' and y in x.a or x.op == 'call' and callee_is(x, 'builtins.zip', 'builtins.enumerate') and any(v is y for _, v in x.a[1]) for x, y in ((a, b), (b, a))):
        # one of the sequences alone, the others by position
        return False
    sa, sb = symbols(a), symbols(b)
    lost, new = set(sa) - set(sb), set(sb) - set(sa)
    fresh = {x for x in new if x[0] == 'r'}
    if new - fresh:
        # what was computed from an argument is now a stored attribute
        if d.what in REPLACED and any(map(strong, lost)) and any(map(strong, new)):
            idiom = {s for x in na ^ nb if x.op == 'call' for s in (('a', x.a[0].a[1]) if x.a[0].op == 'attr' else ('g', x.a[0].a[0]) if x.a[0].op == 'global' and not x.a[0].a[0].startswith(PKG) else None,)}
            if any(strong(s) and s not in idiom for s in lost | new) or len({AGGREGATES.get(s[1]) for s in lost} | {AGGREGATES.get(s[1]) for s in new}) > 1:
                return True
        mine = [x for x in nb if x.op not in ('attr', 'sub', 'const', 'global')]
        return d.what == 'value' and mine == [param('self')] and all(s[0] == 'a' or s == ('p', 'self') for s in new) and any(s[0] == 'p' and s[1] != 'self' for s in lost)
    if lost and any(x.op == 'phi' for x in na ^ nb):
        # a test that another path already settled may disappear
        lost &= set(symbols_of(values_of(a)))
    return any(s[0] == 'p' or s[0] == 'g' and not s[1].startswith(WEAK_MODULES) or s[0] == 'c' and s[1].startswith(("'", 'b'))
               or s[0] == 'r' and not fresh for s in lost)


def lib(t, *names):
    return t.op == 'call' and t.a[0].op == 'global' and t.a[0].a[0] in names and len(t.a[1]) >= 1


def only_counted(a, b):
    """The extreme of what a collection holds against how many things it holds."""
    for x in (a, b):
        y = b if x is a else a
        for t in values_of(x):
            if lib(t, 'builtins.max', 'builtins.min') and len(t.a[1]) == 1:
                c = t.a[1][0][1]
                if c.op == 'call' and c.a[0].op == 'attr' and c.a[0].a[1] in ('values', 'keys') and not c.a[1]:
                    c = c.a[0].a[0]
                inside = set(walk(c))
                used = [z for z in values_of(y) if not lib(z, 'builtins.len') and c in kids(z)]
                counted = [z for z in values_of(y) if lib(z, 'builtins.len') and c in kids(z)]
                if counted and not used and len(inside) > 1:
                    return True
    return False


def kept_one(a, b):
    """What all iterations of a loop give against what one of them gave."""
    if a.op not in ('seq', 'setof', 'map', 'sum') or b.op != 'loop':
        return False
    its = [a.a[2]] if a.op == 'sum' else [p[3] if p[0] == 'manykv' else p[2] for p in a.a[0] if p[0] in ('many', 'manysplat', 'manykv')]
    if not any(i[:len(b.a[2])] == b.a[2] for i in its):
        return False
    own = [x for x in choice_leaves(b.a[1]) if not (x.op == 'carried' and x.a[0] is b.a[0])]
    return bool(own) and all(t.op in ('attr', 'sub', 'elem', 'call', 'const') for t in own) and not any(x.op in ('carried', 'loop') for t in own for x in walk(t))


def inside_cast(a, b):
    """An operation on converted values against the conversion of its result."""
    if a.op != 'bin' or a.a[0] not in ('+', '-', '*', '/') or not lib(b, 'tensorflow.cast') or len(b.a[1]) != 2:
        return False
    (_, r), (_, d) = b.a[1]
    if r.op != 'bin' or r.a[0] != a.a[0]:
        return False
    cast = lambda x, y: lib(x, 'tensorflow.cast') and len(x.a[1]) == 2 and x.a[1][1][1] is d and x.a[1][0][1] is y  # noqa: E731
    return any(cast(x, y) and y.op in ('param', 'attr', 'elem') for x, y in zip(a.a[1:], r.a[1:])) and not any(lib(x, 'tensorflow.cast') and len(x.a[1]) == 2 and x.a[1][1][1] is d for x in r.a[1:])


SIZES = ('tensorflow.size', 'tensorflow.shape', 'builtins.len', 'numpy.size', 'numpy.shape')
DISTINCT = ('tensorflow.unique', 'numpy.unique', 'builtins.set', 'builtins.frozenset')
ASKED = tuple('tensorflow.' + x for x in ('equal', 'not_equal', 'greater', 'less', 'greater_equal', 'less_equal'))


def sizes_in(t):
    return [x.a[1][0][1] for x in walk(t) if lib(x, *SIZES) and x.a[1]]


def distinct_counted(a, b):
    """How many values there are against how many different ones."""
    if any(lib(x, *DISTINCT) for x in walk(a)):
        return False
    sa = sizes_in(a)
    for x in sizes_in(b):
        if x.op in ('sub', 'attr'):
            x = x.a[0]
        if lib(x, *DISTINCT) and x.a[1] and x.a[1][0][1] in sa and x.a[1][0][1] not in sizes_in(b):
            return True
    return False


def content_asked(a, b):
    """Only the shape of a tensor matters, against a test of what it holds."""
    shapes = {x.a[1][0][1]: x for x in walk(a) if lib(x, *SIZES) and x.a[1]}
    for x in values_of(b):
        if lib(x, *ASKED):
            for v in [v for _, v in x.a[1] if v in shapes and not is_const(v)]:
                if all(lib(y, *SIZES) or v not in kids(y) for y in walk(a)):
                    return True
    return False


def first_for_each(a, b):
    """Every element of a collection against the one at a fixed place."""
    each = {x.a[0] for x in walk(a) if x.op == 'elem'} | {y for x in walk(a) if x.op == 'any' for y in x.a[1]}
    each |= {x.a[0] for x in each if x.op == 'slice'}
    for x in walk(b):
        if x.op == 'sub' and x.a[0] in each and is_const(x.a[1]) and isinstance(cval(x.a[1]), int):
            i = x.a[0]
            return not any(y.op == 'elem' and y.a[0] is i or y.op == 'slice' and y.a[0] is i for y in walk(b)) and not any(y.op == 'sub' and y.a[0] is i for y in walk(a))
    return False


def other_axis(a, b):
    """A part of every row against a part of the rows."""
    def along(t):
        if t.op == 'slice' and not (t.a[1] is NONE and t.a[2] is NONE):
            return t.a[0], 0
        if t.op == 'sub' and t.a[1].op == 'tup':
            for i, x in enumerate(t.a[1].a):
                if x.op != 'sl':
                    return None
                if any(y is not NONE for y in x.a):
                    return t.a[0], i
        return None
    x, y = along(a), along(b)
    return x is not None and y is not None and x[0] is y[0] and x[1] != y[1]


def rest_of(a, b):
    """What is not in a collection against the collection."""
    return lib_arg(a).op in ('seq', 'setof') and any(
        p[0] == 'many' and any(c.op == 'not' and c.a[0].op == 'in' and c.a[0].a[0] is p[1] and c.a[0].a[1] is b for c in conj(p[3])) for p in lib_arg(a).a[0])


def same_for_all(a, b):
    """A value of the element at hand against one that no element has a part in."""
    def own(t, bound, seen):
        if (t, bound) in seen:
            return False
        seen.add((t, bound))
        if t.op == 'elem':
            return t.a[0] not in bound
        its = set()
        if t.op in ('seq', 'map', 'setof'):
            for p in t.a[0]:
                if p[0] in ('many', 'manysplat', 'manykv'):
                    its.update(x for x in flat_terms(p[3 if p[0] == 'manykv' else 2]))
        elif t.op in ('any', 'sum', 'last', 'loop'):
            its.update(flat_terms(t.a[1:]))
        inner = bound | its if its else bound
        return any(own(k, inner, seen) for k in kids(t))
    bad = OPAQUE | {'elem', 'index', 'its', 'lparam', 'any', 'last', 'const', 'lam'}
    return (a.op in ('elem', 'sub', 'attr', 'call', 'bin') and b.op not in ('seq', 'map', 'setof', 'tup') and own(a, frozenset(), set()) and not any(x.op in bad - {'const'} for x in walk(b)) and b.op != 'const'
            and any(x.op == 'param' for x in walk(b)))


NEVER_NONE = {'digest', 'hexdigest', 'format', 'join', 'encode', 'decode', 'tolist', 'astype', 'as_list', 'SerializeToString'}


def always_something(a, b):
    """No value in some case, against a value in every case."""
    return NONE in choice_leaves(a) and a.op == 'phi' and all(x.op in ('concat', 'tup') or x.op == 'call' and x.a[0].op == 'attr' and x.a[0].a[1] in NEVER_NONE for x in choice_leaves(b))


def cut_short(a, b):
    """Running until the longest of several sequences ends, one of them possibly given as empty, against the shortest."""
    if not lib(a, 'itertools.zip_longest') or not (b.op == 'zip' or lib(b, 'builtins.zip')):
        return False
    return any(v.op == 'phi' and any(empty(x) for x in choice_leaves(v)) for k, v in a.a[1])


def lib_arg(t):
    return t.a[1][0][1] if lib(t, 'builtins.sorted', 'builtins.list', 'builtins.set', 'builtins.tuple') and len(t.a[1]) == 1 else t


def only_some(a, b):
    """A collection against a part of it."""
    if b.op != 'slice' or not all(is_const(x) for x in b.a[1:]) or not any(isinstance(cval(x), int) and cval(x) for x in b.a[1:3]):
        return False
    c = b.a[0]
    if c is a:
        return True
    return c.op == 'seq' and len(c.a[0]) == 1 and (c.a[0][0][0] == 'splat' and c.a[0][0][1] is a or c.a[0][0][0] == 'many' and c.a[0][0][2] == (a,) and c.a[0][0][3] is TRUE)


def arbitrary_pick(a, b):
    """The entry under a key against whichever entry comes first."""
    return a.op == 'sub' and lib(b, 'builtins.next') and lib(b.a[1][0][1], 'builtins.iter') and any(
        x.op == 'call' and x.a[0].op == 'attr' and x.a[0].a[1] == 'values' and x.a[0].a[0] is a.a[0] for x in kids(b.a[1][0][1]))


def other_component(a, b):
    """One component of a result of several values against another one."""
    def comps(t):
        out = {}
        whole = set()
        for x in walk(t):
            i = x.op == 'sub' and is_const(x.a[1]) and isinstance(cval(x.a[1]), int) and cval(x.a[1]) >= 0
            if i and x.a[0].op == 'call' and x.a[0].a[0].op in ('global', 'attr'):
                out.setdefault(x.a[0], set()).add(cval(x.a[1]))
            whole.update(y for y in kids(x) if y.op == 'call' and not (i and y is x.a[0]))
        return {k: v for k, v in out.items() if k not in whole}
    ca, cb = comps(a), comps(b)
    return any(k in cb and ca[k] - cb[k] and cb[k] - ca[k] for k in ca)


def one_of_parts(a, b):
    """Several collections joined, against one or the other of them."""
    if b.op != 'phi':
        return False
    if a.op == 'concat':
        parts = {strip(x) for x in a.a}
    elif a.op == 'seq' and all(p[0] == 'splat' for p in a.a[0]):
        parts = {strip(p[1]) for p in a.a[0]}
    else:
        return False
    return len(parts) > 1 and {strip(x) for x in choice_leaves(b)} == parts


def reversed_build(a, b):
    """Elements appended against elements put in front."""
    def front(t):
        out = set()
        for x in walk(t):
            if x.op == 'seq' and len(x.a[0]) > 1 and x.a[0][-1][0] == 'splat' and peel(x.a[0][-1][1]) is not x.a[0][-1][1]:
                out |= {p for p in x.a[0][:-1]}
        return {x for p in out for x in p[1:2]}
    for x, y in ((a, b), (b, a)):
        if x.op == 'seq' and y.op == 'loop':
            added = {z for p in x.a[0] for z in p[1:2]}
            added |= {z for t in added if t.op == 'phi' for z in t.a[1:]}
            if added & front(y.a[1]):
                return True
    return False


def reordered_update(a, b, vocab):
    """f(update(x)) against update(f(x)), f a function of the project."""
    def fs(t):
        return {x.a[0].a[0] for x in walk(t) if x.op == 'call' and x.a[0].op == 'global' and x.a[0].a[0].startswith(PKG) and x.a[0].a[0] in vocab}

    def over(t, f):
        return any(x.op == 'call' and x.a[0].op == 'global' and x.a[0].a[0] == f and any(y.op == 'mut' or extends(y) for v in x.a[1] for y in direct(v[1])) for x in direct(t))

    def under(t, f):
        return any(x.op == 'mut' and is_f(x.a[0], f) or extends(x) and any(is_f(p[1], f) for p in x.a[0] if p[0] == 'splat') for x in direct(t))

    def is_f(t, f):
        return any(y.op == 'call' and y.a[0].op == 'global' and y.a[0].a[0] == f for y in direct(t))

    def extends(x):
        return x.op == 'seq' and len(x.a[0]) > 1 and any(p[0] == 'splat' for p in x.a[0])

    def direct(t):
        out, todo = [], [t]
        while todo:
            x = todo.pop()
            out.append(x)
            if x.op == 'phi':
                todo.extend(x.a[1:])
        return out
    return any(over(a, f) and under(b, f) and not under(a, f) and not over(b, f) for f in fs(a) & fs(b))


def uniq(fs):
    out, seen = [], set()
    for f in sorted(fs, key=lambda f: not f.dec):
        k = (f.fact, f.diff.what, f.diff.a, f.diff.b)
        if k not in seen:
            seen.add(k)
            out.append(f)
    return out


def filled(c, A, B):
    """The container is now given entries by a call it was not given before."""
    def of(S):
        return {t for t in S.allcalls if t.a[0].op == 'attr' and t.a[0].a[1] in ('update', 'setdefault', '__setitem__', 'extend') and peel(t.a[0].a[0]) is peel(c)}
    return bool(of(B) - of(A))


def has_opaque_extra(A, B):
    return any(t not in A.allcalls for t, _, _ in B.calls)


def keyname(k):
    if k[0] == 'attr':
        return show(k[1], 3) + '.' + k[2]
    if k[0] == 'item':
        return show(k[1], 3) + '[' + show(k[2], 3) + ']'
    return str(k[1])


LOOKUP_ERRORS = {'builtins.KeyError', 'builtins.IndexError', 'builtins.AttributeError', 'builtins.StopIteration'}


def opens_file(t):
    return t.op == 'call' and head(t).rsplit('.', 1)[-1] in ('GFile', 'open', 'FileIO', 'TFRecordWriter', 'Open')


PLAIN = set()


def plain_functions(p):
    """Functions whose code names nothing but the standard library: no graph or session in scope matters to them."""
    PLAIN.clear()
    for f in p.functions():
        if f.cls is not None:
            continue
        ok = True
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Import, ast.ImportFrom, ast.Call)) and not (isinstance(n, ast.Call) and p.dotted(f.mod, n.func) is not None):
                ok = ok and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in PLAIN_METHODS
            elif isinstance(n, ast.Call):
                ok = ok and p.dotted(f.mod, n.func).split('.')[0] in ('builtins', 'os', 'uuid', 'json', 'collections', 'itertools', 're', 'hashlib', 'datetime', 'time')
        if ok:
            PLAIN.add(f.qual)


PLAIN_METHODS = {'format', 'join', 'split', 'strip', 'items', 'keys', 'values', 'append', 'extend', 'update', 'encode', 'decode', 'startswith', 'endswith', 'get'}


def graph_scope(t):
    """A context that only matters to TensorFlow calls made inside it."""
    while t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in ('as_default', 'device', 'control_dependencies'):
        t = t.a[0].a[0]
    return t.op == 'call' and callee_is(t, '.Graph', '.Session', '.get_default_graph', '.Graph.as_default', '.control_dependencies', '.device', '.init_scope')


def ctxcmp(add, fact, es, fs, D):
    ca = {clean_ctx(e.ctx) for e in es}
    cb = {clean_ctx(f.ctx) for f in fs}
    if ca != cb and (len(ca) != 1 or len(cb) != 1) and len(es) <= 4 and len(fs) <= 4:
        # in different contexts under different conditions
        same = [(e, f) for e in es for f in fs if relation(mk_and(D.assume, e.guard()), mk_and(D.assume, f.guard())) == (True, True)]
        for e, f in same:
            if sum(x is e or y is f for x, y in same) == 1 and all(c[0] == 'with' for c in set(clean_ctx(e.ctx)) ^ set(clean_ctx(f.ctx))):
                ctxcmp(add, fact, [e], [f], D)
    if ca == cb or len(ca) != 1 or len(cb) != 1:
        return
    a, b = next(iter(ca)), next(iter(cb))
    asm = mk_and(D.assume, *[e.guard() for e in (es[0], fs[0])])
    if len(es) == len(fs) == 1 and asm is not FALSE and len(atoms_of(asm, {})) <= 24:
        D = Differ(D.vocab, asm)
    lost = [c for c in a if c not in b]
    new = [c for c in b if c not in a]
    if any(c[0] == 'deferred' for c in lost + new):
        return
    for c in lost:
        if new:
            # compare the single replaced context
            if len(lost) == len(new) == 1 and c[0] == new[0][0] == 'with':
                add(fact, D.diff(c[1], new[0][1]), fs[0].loc)
            elif len(lost) == len(new) == 1 and c[0] == new[0][0] == 'try':
                add(fact, [Diff('enclosing handler', c, new[0], True)], fs[0].loc)
            else:
                add(fact, [Diff('enclosing context', c, new, False)], fs[0].loc)
            return
        if c[0] == 'with':
            if opens_file(c[1]) and not (fs[0].term.op == 'call' and root_of(fs[0].term.a[0]) is c[1]):
                # an open file matters to what goes through it
                continue
            if graph_scope(c[1]) and fs[0].term.op == 'call' and fs[0].term.a[0].op == 'global' and fs[0].term.a[0].a[0] in PLAIN:
                continue
            add(fact, [Diff('no longer inside its context manager', c[1], 'outside', True)], fs[0].loc)
        elif c[0] == 'finally':
            add(fact, [Diff('no longer on the cleanup path of every exit', 'finally', 'normal exit only', True)], fs[0].loc)
        elif c[0] == 'try':
            # a failed lookup can be tested for instead
            add(fact, [Diff('no longer covered by try', c, 'outside', not set(c[1]) <= LOOKUP_ERRORS)], fs[0].loc)


def choices(t, g, e, n=8):
    """A call whose receiver or arguments depend on conditions, as one call per case."""
    if t.op == 'call' and n > 1:
        f = t.a[0]
        for i, x in [(-1, f.a[0])] * (f.op == 'attr') + [(i, v) for i, (_, v) in enumerate(t.a[1])]:
            if x.op == 'phi':
                def put(v):
                    return T('call', T('attr', v, f.a[1]), t.a[1]) if i == -1 else T('call', f, t.a[1][:i] + ((t.a[1][i][0], v),) + t.a[1][i + 1:])
                out = []
                for v, c in ((x.a[1], x.a[0]), (x.a[2], mk_not(x.a[0]))):
                    h = mk_and(g, c)
                    if h is not FALSE and relation(h, FALSE) != (True, True):
                        out += choices(put(v), h, e, n - 1)
                return out
    return [(t, g, e)]


def setcmp(add, label, LA, LB, D, vocab, extra_dec, fi, found_all=None, ref_all=None, ctx=False):
    def grp(L):
        d = {}
        for t, g, e in L:
            k = (t, tuple(c for c in e.ctx if c[0] in ('deferred', 'handler', 'finally')))
            if k in d:
                d[k] = (mk_or(d[k][0], g), d[k][1])
            else:
                d[k] = (g, e)
        return d
    GA, GB = grp(LA), grp(LB)
    ra = [k for k in GA if k not in GB]
    rb = [k for k in GB if k not in GA]
    if ra and rb and len(ra) != len(rb):
        # one call with chosen operands against one call for each choice
        hs = {head(k[0]) for k in ra} & {head(k[0]) for k in rb}
        EA, EB = (grp([x for t, g, e in L for x in (choices(t, g, e) if head(t) in hs else [(t, g, e)])]) for L in (LA, LB))
        xa, xb = [k for k in EA if k not in EB], [k for k in EB if k not in EA]
        if len(xa) == len(xb) and len(xa) <= len(ra):
            GA, GB, ra, rb = EA, EB, xa, xb
    for k in GA:
        if k in GB:
            (g, e), (g2, e2) = GA[k], GB[k]
            ds = D.cond(g, g2) if g is not g2 else []
            if ds and e.loops and tuple(e.loops) == tuple(e2.loops):
                gs = [mk_and(*[x for x in conj(y) if not D.never(x)]) for y in (g, g2)]
                for k2 in range(len(e.loops)):
                    ds = ds and D.within(tuple(e.loops[k2:])).cond(*gs)
            if tuple(e.loops) != tuple(e2.loops):
                ds = ds + D.iters(tuple(e.loops), tuple(e2.loops))
            add('%s %s' % (label, short(k[0])), ds, e2.loc)
    def count(h):
        return (sum(1 for t in (ref_all or GA) if head(t if ref_all else t[0]) == h), sum(1 for t in (found_all or GB) if head(t if found_all else t[0]) == h))
    # pair what remains by callee
    used = set()
    missing = []
    merged = set()
    for k in ra:
        if found_all and k[0] in found_all:
            e2 = found_all[k[0]][0]
            if found_all[k[0]]:
                continue
        best = None
        for j in rb:
            if j in used:
                continue
            same = head(k[0]) == head(j[0])
            if not same:
                continue
            asm = mk_and(D.assume, GA[k][0], GB[j][0])
            D2 = Differ(vocab, asm) if asm is not FALSE and asm is not D.assume and len(atoms_of(asm, {})) <= 24 else D
            ds = D2.diff(k[0], j[0])
            if k[1] != j[1]:
                if ('finally',) in k[1] and ('finally',) not in j[1]:
                    ds = ds + [Diff('no longer on the cleanup path of every exit', 'finally', 'normal exit only', True)]
                else:
                    ds = ds + [Diff('enclosing handler', k[1], j[1], False)]
            cost = sum(1 if d.dec else 20 for d in ds)
            if best is None or cost < best[0]:
                best = (cost, j, ds)
        if best:
            used.add(best[1])
            (g, e), (g2, e2) = GA[k], GB[best[1]]
            gd = D.cond(g, g2) if g is not g2 else []
            if count(head(k[0]))[0] > count(head(k[0]))[1] and has_phi(best[1][0]) and not has_phi(k[0]):
                # one call that makes the choice in its operands
                best = (best[0], best[1], [Diff(d.what, None, None, False) for d in best[2]] or [Diff('call', None, None, False)])
            if gd and not all(d.dec for d in best[2]) and count(head(k[0]))[0] != count(head(k[0]))[1]:
                # cases of one call folded together: which conditions correspond is not known
                gd = [Diff(d.what, None, None, False) for d in gd]
            add('%s %s' % (label, short(k[0])), best[2] + gd, e2.loc)
            if not all(d.dec for d in best[2]):
                merged.add(head(k[0]))
        else:
            missing.append(k)
    left = [j for j in rb if j not in used and not (ref_all and j[0] in ref_all)]
    if len(missing) == len(left) == 1 and other_operation(missing[0][0], left[0][0]):
        k, j = missing.pop(), left.pop()
        add('%s %s' % (label, short(k[0])), [Diff('%s of another operation' % label, k[0], j[0], True)], GB[j][1].loc)

    for k in missing:
        ca, cb = count(head(k[0]))
        add('%s %s' % (label, short(k[0])), [Diff('%s removed' % label, k[0], 'absent', not left and head(k[0]) not in merged and (not opaque(k[0]) or cb < ca))], fi.loc)
    if extra_dec:
        for j in left:
            g, e = GB[j]
            dec = not missing and sideeffect(j[0], vocab) and not opaque(j[0])
            add('%s %s' % (label, short(j[0])), [Diff('%s added' % label, 'absent', j[0], dec)], e.loc)


def other_operation(x, y):
    """Two different file operations of one module, on the same operands."""
    f, g = x.a[0], y.a[0]
    if x.op != 'call' or y.op != 'call' or f.op != 'global' or g.op != 'global' or f is g or not (io_call(x) or io_call(y)):
        return False
    (m, n), (m2, n2) = f.a[0].rpartition('.')[::2], g.a[0].rpartition('.')[::2]
    plain = lambda s: s[:-3] if s.endswith('_v2') else s
    return m == m2 and plain(n) != plain(n2) and {n, n2} != {'rename', 'replace'} and sorted(v.n for _, v in x.a[1]) == sorted(v.n for _, v in y.a[1])


def has_phi(t):
    return any(x.op == 'phi' for x in walk(t))


def head(t):
    if t.op == 'call':
        f = t.a[0]
        return f.a[0] if f.op == 'global' else ('.' + f.a[1] if f.op == 'attr' else f.op)
    if t.op == 'bin' and t.a[0] in ('|', '>>'):
        return t.a[0] + str(head(t.a[2]))
    return t.op


def short(t):
    return show(t.a[0] if t.op == 'call' else t, 3)[:80]


def sideeffect(t, vocab):
    """An additional effect that changes state the caller can see."""
    if t.op == 'sub':
        return root_of(t).op == 'param'
    if t.op != 'call':
        return False
    f = t.a[0]
    if f.op == 'global':
        return any(x in '.' + f.a[0] for x in ('.gfile.', '.rmtree', '.remove', '.unlink', '.rename'))
    if f.op == 'attr' and f.a[1] in MUT_ANY | {'close', 'ClearField', 'CopyFrom', 'MergeFrom', 'reset'}:
        r = root_of(f.a[0])
        return r.op == 'param' or (f.a[0].op == 'attr' and ('.' + f.a[0].a[1]) in vocab)
    return False


def io_call(t):
    f = t.a[0]
    if f.op == 'global':
        return any(x in '.' + f.a[0] for x in ('.gfile.', '.file_io.', '.os.', '.shutil.', 'write_graph', '.tempfile.')) and '.path.' not in f.a[0]
    if f.op == 'attr':
        return f.a[1] in ('save', 'write', 'close', 'add_meta_graph', 'add_meta_graph_and_variables', 'run')
    return False


GRAPH_READS = {'get_collection', 'get_operations', 'unique_name', 'get_operation_by_name', 'get_tensor_by_name'}
GRAPH_WRITES = ('.import_meta_graph', '.import_graph_def')


def graph_read(t):
    f = t.a[0]
    return f.op == 'attr' and f.a[1] in GRAPH_READS


def graph_write(t):
    f = t.a[0]
    return f.op == 'global' and f.a[0].endswith(GRAPH_WRITES)


GRAPH_SAVES = {'add_meta_graph_and_variables', 'add_meta_graph', 'export_meta_graph'}
COLL_READS = {'get_collection', 'get_collection_ref'}
COLL_WRITES = {'clear_collection', 'add_to_collection', 'add_to_collections', 'get_collection_ref'}
STATEFUL = set()
UPDATES = {}
TOUCHED = {}    # function -> the graph collections it reads ('r', name) and updates ('w', name), calls included


def collection_effects(p):
    direct, calls = {}, {}
    for f in p.functions():
        d, c = direct.setdefault(f.qual, set()), calls.setdefault(f.qual, set())
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            name = n.func.attr if isinstance(n.func, ast.Attribute) else None
            if name in GRAPH_SAVES:
                d.add(('r', '*'))
            elif name in COLL_READS | COLL_WRITES and n.args:
                k = p.dotted(f.mod, n.args[0])
                if k:
                    d |= {('r', p.canon(k))} if name in COLL_READS else set()
                    d |= {('c' if name == 'clear_collection' else 'w', p.canon(k))} if name in COLL_WRITES else set()
            else:
                k = p.dotted(f.mod, n.func)
                if k:
                    c.add(p.canon(k))
    while True:
        more = False
        for q, c in calls.items():
            for k in c:
                if direct.get(k, set()) - direct[q]:
                    direct[q] |= direct[k]
                    more = True
        if not more:
            return {q: d for q, d in direct.items() if d}


def touches(t):
    f = t.a[0]
    if f.op == 'global':
        return TOUCHED.get(f.a[0], ())
    if f.op == 'attr' and f.a[1] in COLL_READS | COLL_WRITES and t.a[1] and t.a[1][0][1].op == 'global':
        k = t.a[1][0][1].a[0]
        return coll_of(t, k)
    if f.op == 'attr' and f.a[1] in MUT_ANY:
        x = f.a[0]
        while x.op not in ('call', 'param', 'elem', 'attr', 'global') and kids(x):
            x = kids(x)[0]
        if x.op == 'call' and callee_name(x) == 'get_collection_ref' and x.a[1] and x.a[1][0][1].op == 'global':
            return {('w', x.a[1][0][1].a[0])}
    return ()


def callee_name(t):
    f = t.a[0]
    return f.a[1] if f.op == 'attr' else f.a[0].rsplit('.', 1)[-1] if f.op == 'global' else None


def coll_of(t, k):
    f = t.a[0]
    return {(m, k) for m, s in (('r', COLL_READS), ('c', {'clear_collection'}), ('w', COLL_WRITES - {'clear_collection'})) if f.a[1] in s}
    return ()


def runs(t):
    """Does the call run something in a session?"""
    return t.a[0].op == 'attr' and t.a[0].a[1] == 'run'


def conflict(x, y):
    a, b = x[1], y[1]
    if a[0] == 'call' and b[0] == 'call':
        ta, tb = touches(a[1]), touches(b[1])
        if works_on(a[1], b[1]) or works_on(b[1], a[1]):
            return True
        for p, q in ((ta, tb), (tb, ta)):
            # one looks at a graph collection that the other updates
            if ('r', '*') in p and any(m != 'r' for m, _ in q) and p is not q:
                return True
            if any(m == 'r' and ('w', c) not in p and ('w', c) in q or m != 'c' and ('c', c) in q and ('c', c) not in p for m, c in p):
                return True
        if graph_read(a[1]) and graph_read(b[1]):
            return False
        for p, q in ((a[1], b[1]), (b[1], a[1])):
            if runs(p) and p.a[0].a[0] in [v for _, v in q.a[1]]:
                return True
            if graph_write(p) and (graph_read(q) or {v for _, v in p.a[1] if not is_const(v)} & {v for _, v in q.a[1]}):
                return True
        if io_call(a[1]) and io_call(b[1]):
            return True
        fa, fb = a[1].a[0], b[1].a[0]
        if fa.op == 'attr' and fb.op == 'attr' and fa.a[0] is fb.a[0] and fa.a[1] != fb.a[1]:
            return True
        return False
    for p, q in ((a, b), (b, a)):
        if p[0] == 'call' and q[0] == 'yield':
            return True
        if p[0] == 'call' and q[0] == 'raise' and io_call(p[1]):
            return True
        if p[0] == 'setattr' and q[0] == 'yield':
            return True
        if p[0] == 'call' and q[0] == 'setattr':
            # a method of the object whose attribute is stored
            f = p[1].a[0]
            if f.op == 'attr' and f.a[0] is q[1]:
                return True
            if f.op == 'attr' and f.a[0].op == 'attr' and f.a[0].a[0] is q[1] and f.a[0].a[1] == q[2]:
                return True
    return False


def ordering(A, B):
    """Conflicting effect pairs whose relative order is reversed."""
    posb = {}
    for e, k in B.order:
        posb.setdefault(k, []).append(e)
    posa = {}
    for e, k in A.order:
        posa.setdefault(k, []).append(e)
    items = [(e, k) for e, k in A.order if len(posa[k]) == 1 and len(posb.get(k, ())) == 1]
    n = 0
    out = []
    for i in range(len(items)):
        for j in range(i + 1, len(items)):
            x, y = items[i], items[j]
            if not conflict(x, y):
                continue
            n += 1
            e1, e2 = posb[x[1]][0], posb[y[1]][0]
            if e1.seq > e2.seq:
                g = mk_and(e1.guard(), e2.guard())
                r = relation(g, FALSE)
                if r is None or r[0]:
                    continue
                out.append((Diff('order of effects reversed', '%s before %s' % (okey(x[1]), okey(y[1])), '%s before %s' % (okey(y[1]), okey(x[1])), True), e1.loc))
    return n, out


def okey(k):
    return k[0] + ' ' + ' '.join(show(x, 3) if isinstance(x, T) else str(x) for x in k[1:])[:80]


# ------------------------------------------------------------- project level

class Conformance:
    def __init__(self, ref, cur):
        self.ref, self.cur = ref, cur
        TOUCHED.update(collection_effects(ref))
        STATEFUL.update(stateful(ref))
        UPDATES.update(self_updates(ref))
        self.rf = {f.qual: f for f in ref.functions()}
        self.cf = {f.qual: f for f in cur.functions()}
        self.rg, self.cg = set(global_names(ref)), set(global_names(cur))
        rb = set(self.cf)
        cb = set(self.rf)
        pn = {q: params_of(f) for q, f in self.rf.items()}
        # a property is what the reference has it be: a change of the property itself is reported there
        props = {}
        an = Analyzer(ref, baseline=rb, globals_base=self.cg, plainprops=props)
        for f in ref.functions():
            if f.is_property:
                an.plain_property(f)
        self.ra = lambda extra=(): Analyzer(ref, inline=lambda fi: fi.qual in extra, baseline=rb, globals_base=self.cg, plainprops=props)
        self.ca = lambda extra=(): Analyzer(cur, inline=lambda fi: fi.qual in extra, baseline=cb, param_names=pn, globals_base=self.rg, plainprops=dict(props))
        self.vocab = set(self.rf) | {c.qual for c in ref.classes()} | self.rg
        for m in ref.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute):
                    self.vocab.add('.' + n.attr)
                elif isinstance(n, ast.Name):
                    pass
        self._cache = {}
        plain_functions(ref)

    def function(self, qual):
        """-> (facts, findings); a vanished function is analysed where it was inlined."""
        if qual in self._cache:
            return self._cache[qual]
        f = self.rf[qual]
        g = self.cf.get(qual)
        if g is None:
            r = (0, [], 'vanished')
        else:
            try:
                ra, rb = self.ra().summarize(f), self.ca().summarize(g)
                n, fs = compare(qual, g, ra, rb, self.vocab)
                extra = ()
                if fs:
                    n, fs, ra, rb, extra = self.reuse(qual, f, g, ra, rb, n, fs)
                if fs:
                    n, fs = self.renumber(qual, f, g, ra, rb, n, fs, extra)
                n2, f2 = self.signature(f, g)
                r = (n + n2, fs + f2, 'ok')
            except RecursionError:
                r = (0, [], 'too deep')
            except Exception as e:
                r = (0, [], 'not analysed: %s %s' % (type(e).__name__, str(e)[:100]))
        self._cache[qual] = r
        return r

    def callees(self, p, s, fi):
        out = {}
        for e in s.effects:
            if e.kind == 'call':
                c = e.term.a[0]
                r = None
                if c.op == 'global' and c.a[0].startswith(PKG):
                    r = p.lookup(c.a[0])
                    r = r[1] if r[0] == 'func' else None
                elif c.op == 'attr' and c.a[0].op == 'param' and c.a[0].a[0] in ('self', 'cls') and fi.cls is not None:
                    r = p.method(fi.cls, c.a[1])
                if r is not None and r.qual != fi.qual:
                    out[r.qual] = out.get(r.qual, 0) + 1
        return out

    def reuse(self, qual, f, g, ra, rb, n, fs):
        """One side calls a helper whose body the other side spells out: look into it on both sides."""
        score = lambda x: (sum(y.dec for y in x), len(x))
        x, y = self.callees(self.ref, ra, f), self.callees(self.cur, rb, g)
        more = sorted(q for q in set(x) | set(y) if x.get(q, 0) != y.get(q, 0) and q in self.rf and q in self.cf)
        best = (n, fs, ra, rb, ())
        for extra in ([set(more)] if len(more) > 1 else []) + [{q} for q in more[:6]]:
            try:
                sa, sb = self.ra(extra).summarize(f), self.ca(extra).summarize(g)
                n2, f2 = compare(qual, g, sa, sb, self.vocab)
            except RecursionError:
                continue
            if score(f2) < score(best[1]):
                best = (n2, f2, sa, sb, extra)
                if not f2:
                    break
        return best

    def renumber(self, qual, f, g, ra, rb, n, fs, extra=()):
        """Variables that enter a loop equal are told apart by a number: any numbering will do."""
        score = lambda x: (sum(y.dec or y.diff.what == 'loop' for y in x), len(x))
        perm = {}
        tried = set()
        for _ in range(12):
            groups = {}
            for s in (ra, rb):
                for t in walk(s.ret, *[x for e in s.effects for x in (e.term,) + tuple(e.guards) + tuple(e.loops)]):
                    if t.op == 'carried':
                        groups.setdefault((t.a[0], t.a[1], t.a[3]), set()).add(t.a[2])
            better = False
            for k, ix in groups.items():
                ix = sorted(ix)
                for i, j in itertools.combinations(ix, 2):
                    if (k, i, j) in tried or len(tried) > 16:
                        continue
                    tried.add((k, i, j))
                    pm = dict(perm.get(k) or {x: x for x in ix})
                    sw = {i: j, j: i}
                    new = dict(perm)
                    new[k] = {x: sw.get(y, y) for x, y in pm.items()}
                    an = self.ca(extra)
                    an.carry = new
                    s2 = an.summarize(g)
                    n2, f2 = compare(qual, g, ra, s2, self.vocab)
                    if score(f2) < score(fs):
                        n, fs, rb, perm, better = n2, f2, s2, new, True
                        break
                if better:
                    break
            if not better or not fs:
                break
        return n, fs

    def module_value(self, p, an, mod, node, cls=None, name=None):
        a = an
        sts = mod.building(name) if name else None
        if sts:
            fn = ast.parse('def f(): pass').body[0]
            fn.body = list(sts) + [ast.copy_location(ast.Return(ast.copy_location(ast.Name(name, ast.Load()), node)), node)]
            return a.summarize(FuncInfo(mod.name + '.<module>', fn, mod)).ret
        from .interp import Summary
        fi = FuncInfo(mod.name + '.<module>', ast.Lambda(ast.arguments([], [], None, [], [], None, []), node), mod)
        fi.node = ast.parse('def f(): pass').body[0]
        s = a.summarize(fi)
        return a.ev(node, Frame(fi, cls, {}))

    def signature(self, f, g):
        """Defaults and decorators."""
        out = []
        n = 0

        def defs(p, an, fi):
            a = fi.node.args
            al = a.posonlyargs + a.args
            d = {}
            for x, df in list(zip(al[len(al) - len(a.defaults):], a.defaults)) + [(x, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None]:
                d[x.arg] = self.module_value(p, an, fi.mod, df, fi.cls)
            return d
        da, db = defs(self.ref, self.ra(), f), defs(self.cur, self.ca(), g)
        D = Differ(self.vocab)
        for k, v in da.items():
            n += 1
            if k in db:
                for d in D.diff(v, db[k]):
                    out.append(Finding(f.qual, 'default of %s' % k, d, g.loc, d.dec))
            elif k in params_of(g):
                out.append(Finding(f.qual, 'default of %s' % k, Diff('no longer optional', v, 'required', True), g.loc, True))
        for k in db:
            if k not in da and k in params_of(f):
                out.append(Finding(f.qual, 'default of %s' % k, Diff('newly optional', 'required', db[k], True), g.loc, True))

        def decs(p, an, fi):
            return [self.module_value(p, an, fi.mod, d, fi.cls) for d in fi.node.decorator_list]
        xa, xb = decs(self.ref, self.ra(), f), decs(self.cur, self.ca(), g)
        n += len(xa)
        for x in xa:
            if x not in xb:
                if len(xa) == len(xb):
                    for y in xb:
                        if y not in xa:
                            for d in D.diff(x, y):
                                out.append(Finding(f.qual, 'decorator', d, g.loc, d.dec))
                else:
                    nm = show(x, 4)
                    if any(s in nm for s in ('log_api_use', 'tf_export', 'deprecated', 'final', 'override', 'doc_controls', 'with_input_types', 'with_output_types')):
                        continue
                    out.append(Finding(f.qual, 'decorator', Diff('decorator removed', x, 'absent', True), g.loc, True))
        return n, out

    def computed(self, name):
        """A base class name bound by an expression or chosen under a condition."""
        return name.startswith(PKG) and any(p.lookup(name)[0] not in ('class', 'func') for p in (self.ref, self.cur))

    def constant(self, qual):
        """Module-level or class-level constant."""
        key = ('const', qual)
        if key in self._cache:
            return self._cache[key]
        ra, rb = self.ref.lookup(qual), self.cur.lookup(qual)

        def val(p, an, r):
            if r[0] == 'assign':
                return self.module_value(p, an, r[2], r[1], name=qual.rsplit('.', 1)[1])
            if r[0] == 'classattr':
                return self.module_value(p, an, r[1].mod, r[3], r[1])
            return None
        a, b = val(self.ref, self.ra(), ra), val(self.cur, self.ca(), rb)
        fs = []
        if a is not None and b is not None and a is not b:
            loc = '%s' % (rb[2].relpath if rb[0] == 'assign' else rb[1].loc)
            fs = [Finding(qual, 'constant', d, loc, d.dec) for d in Differ(self.vocab).diff(a, b)]
        self._cache[key] = (1 if b is not None else 0, fs, 'ok' if b is not None or a is None else 'vanished')
        return self._cache[key]

    def klass(self, qual):
        key = ('class', qual)
        if key in self._cache:
            return self._cache[key]
        rc = self.ref.lookup(qual)
        cc = self.cur.lookup(qual)
        fs = []
        n = 0
        if rc[0] != 'class' or cc[0] != 'class':
            self._cache[key] = (0, [], 'vanished')
            return self._cache[key]
        a, b = rc[1], cc[1]
        # bases
        n += 1
        ma = [x.qual if isinstance(x, ClassInfo) else x for x in self.ref.mro(a)]
        mb = [x.qual if isinstance(x, ClassInfo) else x for x in self.cur.mro(b)]
        for x in ma:
            if x.rsplit('.', 1)[-1] not in [y.rsplit('.', 1)[-1] for y in mb] and not x.startswith('?') and x != 'builtins.object' and not any(y.startswith('?') or self.computed(y) for y in ma + mb):
                fs.append(Finding(qual, 'base classes', Diff('base class removed', x, 'absent', True), b.loc, True))
        # methods: a removed override exposes the inherited behaviour
        for m in list(a.methods):
            n += 1
            if m not in b.methods:
                inh = self.cur.method(b, m)
                dunder = m.startswith('__') and m.endswith('__')
                ext = any(isinstance(x, str) and not x.startswith('builtins.') for x in mb)
                if (dunder or inh is not None or not m.startswith('_')) and not (inh is not None and inh.qual not in self.rf):
                    fs.append(Finding(qual, 'method %s' % m, Diff('method removed', m, 'inherited' if inh else 'absent', True), b.loc, True))
        # an added override of an inherited method
        for m in b.methods:
            if m not in a.methods and b.methods[m].qual not in self.rf:
                inh = self.ref.method(a, m)
                if inh is not None and m != '__init__':
                    # compare with what was inherited
                    try:
                        s1 = self.ra().summarize(inh, cls=a)
                        s2 = self.ca().summarize(b.methods[m], cls=b)
                        k, ff = compare(b.methods[m].qual, b.methods[m], s1, s2, self.vocab)
                        n += k
                        fs += ff
                    except RecursionError:
                        pass
                elif m.startswith('__') and m.endswith('__') and m in ('__eq__', '__hash__', '__reduce__', '__getstate__', '__setstate__', '__repr__', '__new__', '__bool__', '__len__', '__str__'):
                    fs.append(Finding(qual, 'method %s' % m, Diff('special method added', 'absent', m, False), b.loc, False))
        # fields of record types
        fa, fb = a.nt_fields, b.nt_fields
        if fa is not None and fb is not None:
            n += len(fa)
            la, lb = [x for x, _ in fa], [x for x, _ in fb]
            if la != lb:
                dec = is_subseq(lb, la) or sorted(la) == sorted(lb)
                fs.append(Finding(qual, 'record fields', Diff('fields', ','.join(la), ','.join(lb), dec), b.loc, dec))
        # class attributes
        for k in a.attrs:
            if k in b.attrs:
                m, f2, _ = self.constant(qual + '.' + k)
                n += m
                fs += f2
            else:
                n += 1
                inh = any(isinstance(x, ClassInfo) and k in x.attrs for x in self.cur.mro(b))
                ext = not inh
                fs.append(Finding(qual, 'class attribute %s' % k, Diff('removed', k, 'inherited' if inh else 'absent', inh), b.loc, inh))
        # decorators
        da = [self.module_value(self.ref, self.ra(), a.mod, d) for d in a.node.decorator_list]
        db = [self.module_value(self.cur, self.ca(), b.mod, d) for d in b.node.decorator_list]
        n += len(da)
        for x in da:
            if x not in db:
                nm = show(x, 4)
                if len(da) == len(db):
                    for y in db:
                        if y not in da:
                            for d in Differ(self.vocab).diff(x, y):
                                fs.append(Finding(qual, 'decorator', d, b.loc, d.dec))
                elif 'ptransform' in nm or 'dataclass' in nm or 'register' in nm:
                    fs.append(Finding(qual, 'decorator', Diff('decorator removed', x, 'absent', True), b.loc, True))
        self._cache[key] = (n, fs, 'ok')
        return self._cache[key]


def params_of(f):
    a = f.node.args
    r = [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]
    if a.vararg:
        r.append(a.vararg.arg)
    if a.kwarg:
        r.append(a.kwarg.arg)
    return r


def global_names(p):
    for m in p.modules.values():
        for k, v in m.names.items():
            if v[0] != 'import':
                yield m.name + '.' + k
    for c in p.classes():
        for k in c.attrs:
            yield c.qual + '.' + k
        for k in c.methods:
            yield c.qual + '.' + k


# ------------------------------------------------------------------- renames

def bag(node):
    out = {}
    for n in ast.walk(node):
        if isinstance(n, ast.Attribute):
            k = '.' + n.attr
        elif isinstance(n, ast.Name):
            k = n.id
        elif isinstance(n, ast.Constant):
            k = repr(n.value)[:40]
        else:
            k = type(n).__name__
        out[k] = out.get(k, 0) + 1
    return out


def similarity(a, b):
    inter = sum(min(a[k], b.get(k, 0)) for k in a)
    tot = max(sum(a.values()), sum(b.values()))
    return inter / tot if tot else 1.0


def find_renames(ref, cur):
    """{new name: reference name} for definitions that were only renamed."""
    out = {}
    for mn, rm in ref.modules.items():
        cm = cur.modules.get(mn)
        if cm is None or cm is rm:
            continue

        def match(rd, cd):
            gone = {k: v for k, v in rd.items() if k not in cd}
            new = {k: v for k, v in cd.items() if k not in rd}
            for k, v in gone.items():
                best = max(((similarity(bag(v), bag(w)), j) for j, w in new.items() if type(w) is type(v) and j not in out), default=None)
                if best and best[0] >= 0.6:
                    out[best[1]] = k

        def defs(m):
            d = {}
            for k, v in m.names.items():
                if v[0] in ('func', 'class'):
                    d[k] = v[1].node
                elif v[0] == 'assign' and isinstance(v[1], ast.AST) and not isinstance(v[1], (ast.FunctionDef, ast.ClassDef)):
                    d[k] = v[1]
            return d
        match(defs(rm), defs(cm))
        rc = {c.qual: c for c in ref._all_classes(rm)}
        cc = {c.qual: c for c in cur._all_classes(cm)}
        inv = {v: k for k, v in out.items()}
        for q, c in rc.items():
            d = cc.get(q) or cc.get(q.rsplit('.', 1)[0] + '.' + inv.get(c.name, c.name))
            if d is None:
                continue
            match({k: v.node for k, v in c.methods.items()}, {k: v.node for k, v in d.methods.items()})
            match(dict(c.attrs), dict(d.attrs))
        # private attributes and keyword parameters
        ra = attr_names(rm.tree)
        ca = attr_names(cm.tree)
        allr = set()
        gone = [k for k in ra if k not in ca and k.startswith('_') and k not in out.values()]
        new = [k for k in ca if k not in ra and k.startswith('_') and k not in out]
        if len(gone) == len(new) and gone:
            for n in new:
                best = max(gone, key=lambda g: -abs(len(ra[g]) - len(ca[n])) * 10 + similarity({x: 1 for x in ra[g]}, {x: 1 for x in ca[n]}))
                if len(ra[best]) == len(ca[n]):
                    out[n] = best
                    gone.remove(best)
    refnames = set()
    for m in ref.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name):
                refnames.add(n.id)
            elif isinstance(n, ast.Attribute):
                refnames.add(n.attr)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                refnames.add(n.name)
            elif isinstance(n, ast.arg):
                refnames.add(n.arg)
    return {k: v for k, v in out.items() if k not in refnames}


def find_moved(ref, cur):
    """{name: reference name} for top-level definitions that now live in another module."""
    out = {}

    def defs(m):
        return {k: v for k, v in m.names.items() if v[0] in ('func', 'class', 'assign')}
    new = {}
    for mn, cm in cur.modules.items():
        rm = ref.modules.get(mn)
        if rm is cm:
            continue
        old = defs(rm) if rm is not None else {}
        for k, v in defs(cm).items():
            if k not in old:
                new.setdefault((k, v[0]), []).append((mn, v))
    if not new:
        return out
    node = lambda v: v[1].node if v[0] != 'assign' else v[1]
    for mn, rm in ref.modules.items():
        cm = cur.modules.get(mn)
        if cm is rm:
            continue
        have = defs(cm) if cm is not None else {}
        for k, v in defs(rm).items():
            if k in have or len(new.get((k, v[0]), ())) != 1:
                continue
            m2, w = new[(k, v[0])][0]
            if isinstance(node(v), ast.AST) and isinstance(node(w), ast.AST) and similarity(bag(node(v)), bag(node(w))) >= 0.6:
                out[m2 + '.' + k] = mn + '.' + k
    return out


def attr_names(tree):
    """attribute name -> list of enclosing function names in order of use."""
    out = {}

    def rec(n, fn):
        for c in ast.iter_child_nodes(n):
            f = c.name if isinstance(c, (ast.FunctionDef, ast.ClassDef)) else fn
            if isinstance(c, ast.Attribute) and isinstance(c.value, ast.Name) and c.value.id in ('self', 'cls'):
                out.setdefault(c.attr, []).append(fn)
            rec(c, f)
    rec(tree, '')
    return out
