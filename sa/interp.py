"""Gated-SSA value-graph construction with effect collection.

Every function is abstracted to (a) the value graph of what it returns and
(b) the ordered list of effects (calls, stores, raises, yields, context
managers) each with its control dependences (guards), enclosing loops and
enclosing try/with regions.  Local names, temporaries, helper functions that
are not part of the baseline vocabulary, and the loop/comprehension form are
abstracted away.
"""
import ast
import builtins
import json
import os
import re
import string

from .project import FuncInfo, ClassInfo, PKG
from .terms import *
from . import terms as tm

MUT_SEQ = {'append', 'extend', 'insert', 'appendleft'}
MUT_ANY = MUT_SEQ | {'add', 'update', 'pop', 'popleft', 'remove', 'clear', 'discard', 'setdefault',
                     'sort', 'reverse', 'popitem', 'extendleft', 'difference_update', 'intersection_update'}


class Effect:
    __slots__ = ('kind', 'term', 'guards', 'loops', 'ctx', 'seq', 'node', 'fn', 'chain')

    def __init__(self, kind, term, guards, loops, ctx, seq, node, fn, chain):
        self.kind, self.term, self.guards, self.loops, self.ctx = kind, term, guards, loops, ctx
        self.seq, self.node, self.fn, self.chain = seq, node, fn, chain

    @property
    def loc(self):
        return '%s:%d' % (self.fn.mod.relpath, getattr(self.node, 'lineno', 0))

    def guard(self):
        return mk_and(*self.guards)

    def dominates(self, other):
        """Approximate: self executes before other on every path reaching other."""
        if self.seq >= other.seq:
            return False
        if any(c[0] in ('handler', 'deferred') and c not in other.ctx for c in self.ctx):
            return False
        if not set(self.guards) <= set(other.guards):
            return False
        return other.loops[:len(self.loops)] == self.loops

    def __repr__(self):
        g = self.guard()
        return '%s %s%s%s @%s' % (self.kind, show(self.term), '' if g is TRUE else ' IF ' + show(g),
                                  ''.join(' FOR ' + show(x) for x in self.loops), self.loc)


class Summary:
    def __init__(self, fi):
        self.fi = fi
        self.effects = []
        self.ret = NONE
        self.env = {}
        self.loopvars = {}
        self.advanced = {}
        self.shared = set()

    def calls(self, *names, deferred=True):
        """Call effects whose callee's dotted name or method name is in names.

        A name containing '.' matches the canonical callee (or its suffix after a dot);
        a name starting with '.' matches a method name on any receiver.
        """
        out = []
        for e in self.effects:
            if e.kind == 'call' and callee_is(e.term, *names):
                if deferred or not any(c[0] == 'deferred' for c in e.ctx):
                    out.append(e)
        return out

    def of(self, *kinds):
        return [e for e in self.effects if e.kind in kinds]

    def all_terms(self):
        ts = [self.ret] + [e.term for e in self.effects]
        for e in self.effects:
            ts.extend(e.guards)
        return ts


def callee_name(call):
    f = call.a[0]
    if f.op == 'global':
        return f.a[0]
    if f.op == 'attr':
        return '.' + f.a[1]
    return None


def callee_is(call, *names):
    if call.op != 'call':
        return False
    f = call.a[0]
    if f.op == 'global':
        q = f.a[0]
        for n in names:
            if n.startswith('.'):
                if q.endswith(n):
                    return True
            elif q == n or q.endswith('.' + n):
                return True
    elif f.op == 'attr':
        for n in names:
            if n.startswith('.') and f.a[1] == n[1:]:
                return True
            if not n.startswith('.') and '.' in n and n.rsplit('.', 1)[1] == f.a[1] and n.startswith('self.') and f.a[0] is param('self'):
                return True
    return False


def arg(call, pos, name=None, default=None):
    """Argument of a call term by position and/or keyword name."""
    for k, v in call.a[1]:
        if k == pos or (name is not None and k == name):
            return v
    return default


def args(call):
    return [v for k, v in call.a[1]]


def receiver(call):
    f = call.a[0]
    if f.op == 'attr':
        return f.a[0]
    if f.op == 'global' and '.' in f.a[0]:
        return glob(f.a[0].rsplit('.', 1)[0])
    return None


class Closure:
    def __init__(self, fi, frame, env, bound=None):
        self.fi, self.frame, self.env, self.bound = fi, frame, env, bound or ()


class Frame:
    def __init__(self, fi, cls, env, parent=None, lexical=None):
        self.fi, self.cls, self.env, self.parent, self.lexical = fi, cls, env, parent, lexical
        self.rets = []
        self.heaps = []
        self.yields = []
        self.globals = set()
        self.nonlocals = set()
        self.gbase = 0
        self.lbase = 0
        self.is_gen = False
        self.inplace = ()


class Analyzer:
    MAXDEPTH = 12

    def __init__(self, project, inline=None, baseline=None, param_names=None, globals_base=None, plainprops=None):
        self.p = project
        self.inline_extra = inline or (lambda fi: False)
        self.baseline = baseline
        self.globals_base = globals_base
        self.param_names = param_names or {}
        self.closures = {}
        self.plainprops = {} if plainprops is None else plainprops
        self.carry = {}
        self.frame = None
        self.seq = 0

    # ------------------------------------------------------------------ entry
    def summarize(self, fi, bind=None, cls=None):
        s = Summary(fi)
        self.s = s
        self.guards = []      # (term, implied)
        self.loops = []
        self.ctx = []
        self.stack = [fi.node]
        self.seq = 0
        self.escaped = {}
        env = {}
        names = self.canon_params(fi)
        a = fi.node.args
        real = [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]
        if a.vararg:
            real.append(a.vararg.arg)
        if a.kwarg:
            real.append(a.kwarg.arg)
        for r, n in zip(real, names):
            env[r] = (bind or {}).get(n, param(n))
        fr = Frame(fi, cls or fi.cls, env)
        s.ret = self.run_body(fr, fi.node)
        s.env = fr.env
        s.frame = fr
        out = self.cells(fr)
        for g, lo, h in reversed(fr.heaps):
            if h or out:
                out = self.merge(mk_any(g, lo) if lo else g, h, out)
        s.cells = out
        return s

    def canon_params(self, fi):
        a = fi.node.args
        real = [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]
        if a.vararg:
            real.append(a.vararg.arg)
        if a.kwarg:
            real.append(a.kwarg.arg)
        base = self.param_names.get(fi.qual)
        if base and len(base) == len(real) and set(base) != set(real):
            return base
        return real

    def run_body(self, fr, node):
        fr.gbase = len(self.guards)
        fr.lbase = len(self.loops)
        self.last_raise = FALSE
        if isinstance(node, ast.Lambda):
            r = self.ev(node.body, fr)
            self.last_raise = FALSE
            return r
        fr.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))
        ng = len(self.guards)
        ex = self.block(node.body, fr)
        del self.guards[ng:]
        self.last_raise = ex[2]
        if fr.is_gen:
            parts = []
            for g, lo, t, splat in fr.yields:
                if splat:
                    e, i, c = self.iterate(t, fr, node)
                    parts.append(('many', e, tuple(lo) + i, mk_and(g, c)))
                else:
                    parts.append(('many', t, tuple(lo), g) if (lo or g is not TRUE) else ('item', t))
            return T('seq', tuple(parts))
        acc = None if ex[0] is TRUE else NONE
        for g, lo, t in reversed(fr.rets):
            if lo:
                g = mk_any(g, tuple(lo))
            acc = t if acc is None else mk_phi(g, t, acc)
        return acc if acc is not None else NONE

    # ---------------------------------------------------------------- effects
    def eff(self, kind, term, node, fr):
        self.seq += 1
        e = Effect(kind, term, tuple(g for g, _ in self.guards), tuple(self.loops), tuple(self.ctx), self.seq,
                   node, fr.fi, None)
        self.s.effects.append(e)
        return e

    def rel_guard(self, fr, implied=False):
        return mk_and(*[g for g, im in self.guards[fr.gbase:] if implied or not im])

    # ------------------------------------------------------------- statements
    def block(self, stmts, fr):
        """Returns (return_cond, loop_exit_cond, raise_cond) relative to block entry."""
        ng = len(self.guards)
        ret = brk = rs = FALSE
        for st in stmts:
            op, ob = self.pend, self.pend_base
            self.pend, self.pend_base = FALSE, (len(self.guards), len(self.loops))
            r, b, x = self.stmt(st, fr)
            if self.pend is not FALSE:
                # an inlined callee may have raised
                pe = self.pend if x is FALSE and r is FALSE and b is FALSE else mk_and(mk_not(mk_or(r, b, x)), self.pend)
                x = mk_or(x, pe)
            self.pend, self.pend_base = op, ob
            if r is FALSE and b is FALSE and x is FALSE:
                continue
            tot = mk_or(r, b, x)
            live = mk_not(mk_or(ret, brk, rs))
            if live is not TRUE:
                r, b, x = mk_and(live, r), mk_and(live, b), mk_and(live, x)
            ret, brk, rs = mk_or(ret, r), mk_or(brk, b), mk_or(rs, x)
            if tot is TRUE:
                # the rest of the block is dead code
                break
            if b is not FALSE:
                # skipping the rest of an iteration is not a return: what follows does not happen
                self.guards.append((mk_not(b), False))
            rx = mk_or(r, x)
            if rx is not FALSE:
                self.guards.append((mk_not(rx), True))
            self.learn(fr, mk_not(tot))
        del self.guards[ng:]
        return ret, brk, rs

    def learn(self, fr, c):
        """Known values in the case that c holds: {key: value} of what changed."""
        out = {}
        lits = [(x.a[0], False) if x.op == 'not' else (x, True) for x in (c.a if c.op == 'and' else (c,))]
        for k, v in fr.env.items():
            if v.op != 'phi':
                continue
            w = v
            for at, val in lits:
                if w.op == 'phi':
                    w = restrict(w, at, val)
            if w is not v:
                out[k] = w
        fr.env.update(out)
        return out

    def step(self, v, st, fr):
        # `pcoll | transform` extends the pipeline whether or not its value is used
        if v.op == 'bin' and v.a[0] == '|':
            self.eff('step', v, st, fr)

    def stmt(self, st, fr):
        N = (FALSE, FALSE, FALSE)
        if isinstance(st, ast.Expr):
            if isinstance(st.value, ast.Constant):
                return N
            self.step(self.ev(st.value, fr), st, fr)
            return N
        if isinstance(st, ast.Assign):
            v = self.ev(st.value, fr)
            self.step(v, st, fr)
            for t in st.targets:
                self.assign(t, v, fr, st)
            return N
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.ev(st.value, fr), fr, st)
            return N
        if isinstance(st, ast.AugAssign):
            return self.augassign(st, fr)
        if isinstance(st, ast.Return):
            v = NONE if st.value is None else self.settle(self.ev(st.value, fr), fr)
            if fr.parent is None and fr is self.top(fr):
                self.eff('ret', v, st, fr)
            fr.rets.append((self.rel_guard(fr), tuple(self.loops[fr.lbase:]), v))
            fr.heaps.append((self.rel_guard(fr), tuple(self.loops[fr.lbase:]), self.cells(fr)))
            return (TRUE, FALSE, FALSE)
        if isinstance(st, ast.Raise):
            v = NONE if st.exc is None else self.ev(st.exc, fr)
            self.eff('raise', v, st, fr)
            return (FALSE, FALSE, TRUE)
        if isinstance(st, ast.Assert):
            c = truth(self.ev(st.test, fr))
            self.eff('assert', c, st, fr)
            if c is FALSE:
                return (FALSE, FALSE, TRUE)
            return (FALSE, FALSE, mk_not(c))
        if isinstance(st, ast.If):
            c = truth(self.ev(st.test, fr))
            if c is TRUE:
                return self.block(st.body, fr)
            if c is FALSE:
                return self.block(st.orelse, fr)
            env0 = fr.env
            fr.env = dict(env0)
            self.guards.append((c, False))
            k1 = self.learn(fr, c)
            r1 = self.block(st.body, fr)
            self.guards.pop()
            env1 = fr.env
            fr.env = dict(env0)
            nc = mk_not(c)
            self.guards.append((nc, False))
            k2 = self.learn(fr, nc)
            r2 = self.block(st.orelse, fr)
            self.guards.pop()
            env2 = fr.env
            t1 = mk_or(*r1) is TRUE
            t2 = mk_or(*r2) is TRUE
            if t1 and not t2:
                fr.env = env2
            elif t2 and not t1:
                fr.env = env1
            else:
                for k in set(k1) | set(k2):
                    # only known better inside the branches, not changed by them
                    v = env0[k]
                    if env1.get(k) is k1.get(k, v) and env2.get(k) is k2.get(k, v):
                        env1[k] = env2[k] = v
                fr.env = self.merge(c, env1, env2)
            return tuple(mk_or(mk_and(c, a), mk_and(nc, b)) for a, b in zip(r1, r2))
        if isinstance(st, (ast.For, ast.AsyncFor)):
            return self.for_loop(st, fr)
        if isinstance(st, ast.While):
            return self.while_loop(st, fr)
        if isinstance(st, (ast.Break, ast.Continue)):
            kind = 'break' if isinstance(st, ast.Break) else 'continue'
            self.eff(kind, NONE, st, fr)
            self.breaks[-1].append((kind, self.loop_guard(), dict(fr.env)))
            return (FALSE, TRUE, FALSE)
        if isinstance(st, (ast.With, ast.AsyncWith)):
            n = 0
            for it in st.items:
                c = self.ev(it.context_expr, fr)
                self.eff('with', c, st, fr)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, T('enter', c), fr, st, silent=True)
                self.ctx.append(('with', c))
                n += 1
            r = self.block(st.body, fr)
            del self.ctx[len(self.ctx) - n:]
            return r
        if isinstance(st, ast.Try):
            return self.try_stmt(st, fr)
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fi = FuncInfo(fr.fi.qual + '.<locals>.' + st.name, st, fr.fi.mod, cls=None, outer=fr.fi)
            fr.env[st.name] = self.make_closure(fi, fr)
            for d in st.decorator_list:
                # a decorated local function escapes
                fr.env[st.name] = T('decorated', self.ev(d, fr), self.escape(fr.env[st.name], fr, st))
            return N
        if isinstance(st, ast.ClassDef):
            fr.env[st.name] = T('localclass', fr.fi.qual + '.' + st.name)
            return N
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            for al in st.names:
                if isinstance(st, ast.Import):
                    nm = al.asname or al.name.split('.')[0]
                    fr.env[nm] = glob(self.p.canon(al.name if al.asname else nm))
                else:
                    fr.env[al.asname or al.name] = glob(self.p.canon(fr.fi.mod.resolve_from(st) + '.' + al.name))
            return N
        if isinstance(st, ast.Global):
            fr.globals.update(st.names)
            return N
        if isinstance(st, ast.Nonlocal):
            fr.nonlocals.update(st.names)
            return N
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    b, i = self.ev(t.value, fr), self.ev(t.slice, fr)
                    self.eff('del', T('sub', b, i), st, fr)
                    root = self.lvalue_name(t.value)
                    if root and root in fr.env:
                        fr.env[root] = T('mut', b, 'del', (i,))
                elif isinstance(t, ast.Attribute):
                    self.eff('del', attr(self.ev(t.value, fr), t.attr), st, fr)
                elif isinstance(t, ast.Name):
                    fr.env.pop(t.id, None)
            return N
        return N

    def cells(self, fr):
        """Heap cells and in-place updated parameters of a frame."""
        d = {k: x for k, x in fr.env.items() if isinstance(k, tuple)}
        for n in fr.inplace:
            if n in fr.env:
                d[('%', n)] = fr.env[n]
        return d

    def top(self, fr):
        return fr if fr.parent is None else None

    def loop_guard(self):
        return mk_and(*[g for g, _ in self.guards[self.loop_gbase[-1]:]])

    breaks = []
    loop_gbase = []

    def merge(self, c, e1, e2):
        out = {}
        for k in set(e1) | set(e2):
            a, b = e1.get(k), e2.get(k)
            if a is None or b is None:
                if isinstance(k, tuple):   # heap cell: unknown on the other side
                    a = a if a is not None else tm.attr(k[1], k[2])
                    b = b if b is not None else tm.attr(k[1], k[2])
                    out[k] = mk_phi(c, a, b)
                else:
                    out[k] = a if a is not None else b
            else:
                out[k] = mk_phi(c, a, b)
        return out

    # -- loops
    def for_loop(self, st, fr):
        it = self.ev(st.iter, fr)
        self.frame = fr
        row = self.literal(it)
        if row is not None and not st.orelse and not leaves_loop(st):
            return self.unroll(row, st, fr)
        segs = self.segments(it, fr, st)
        if segs is not None and not st.orelse and not leaves_loop(st, ast.Break) and not (leaves_loop(st) and any(not i for _, i, _ in segs)):
            return self.unroll(segs, st, fr, self.segment)
        elt, iters, cond = self.iterate(it, fr, st)
        return self.loop_common(st, fr, iters, cond, elt)

    def segments(self, it, fr, node):
        """A concatenation, as the loops that go through its parts one after the other."""
        if it.op == 'call' and callee_is(it, 'builtins.list', 'builtins.tuple') and len(it.a[1]) == 1:
            return self.segments(it.a[1][0][1], fr, node)
        if it.op == 'bin' and it.a[0] == '+':
            parts = [p for x in self.spread(it.a[1]) + self.spread(it.a[2]) for p in (self.spread(x[1]) if x[0] == 'splat' else [x])]
        elif it.op == 'seq':
            parts = list(it.a[0])
        else:
            return None
        if not 1 < len(parts) <= 6:
            return None
        out = []
        for p in parts:
            if p[0] == 'item':
                out.append((p[1], (), TRUE))
            elif p[0] == 'many':
                out.append(p[1:4])
            elif p[0] == 'splat':
                inner = self.segments(p[1], fr, node) if p[1].op == 'bin' else None
                out.extend(inner or [self.iterate(p[1], fr, node)])
            elif p[0] == 'manysplat':
                e, i, c = self.iterate(p[1], fr, node)
                out.append((e, p[2] + i, mk_and(p[3], c)))
            else:
                return None
        return out

    def segment(self, seg, st, fr):
        e, i, c = seg
        if i:
            return self.loop_common(st, fr, i, c, e)
        self.assign(st.target, e, fr, st, silent=True)
        if c is TRUE:
            return self.block(st.body, fr)
        env0 = dict(fr.env)
        self.guards.append((c, False))
        r, b, s = self.block(st.body, fr)
        self.guards.pop()
        fr.env = self.merge(c, fr.env, env0)
        return mk_and(c, r), mk_and(c, b), mk_and(c, s)

    def literal(self, it):
        """The elements of an iterable written out in place."""
        if it.op == 'call' and callee_is(it, 'builtins.enumerate') and len(it.a[1]) == 1:
            r = self.literal(it.a[1][0][1])
            return None if r is None else [T('tup', const(i), x) for i, x in enumerate(r)]
        if it.op == 'call' and callee_is(it, 'builtins.zip') and it.a[1] and all(isinstance(k, int) for k, _ in it.a[1]):
            rs = [self.literal(v) for _, v in it.a[1]]
            if any(r is None for r in rs) or len({len(r) for r in rs}) != 1:
                return None
            return [T('tup', *xs) for xs in zip(*rs)]
        if it.op == 'tup':
            r = list(it.a)
        elif it.op == 'seq' and all(p[0] == 'item' for p in it.a[0]):
            r = [p[1] for p in it.a[0]]
        elif it.op == 'map' and all(p[0] == 'kv' and is_const(p[1]) for p in it.a[0]) and len({p[1] for p in it.a[0]}) == len(it.a[0]):
            r = [p[1] for p in it.a[0]]
        elif it.op == 'call' and it.a[0].op == 'attr' and it.a[0].a[1] == 'items' and not it.a[1] and it.a[0].a[0].op == 'map':
            m = it.a[0].a[0]
            r = self.literal(m)
            if r is not None:
                r = [T('tup', p[1], p[2]) for p in m.a[0]]
        else:
            return None
        return r if r is not None and 0 < len(r) <= 12 else None

    def unroll(self, row, st, fr, one=None):
        R = S = FALSE
        ng = len(self.guards)
        for x in row:
            if one is not None:
                r, b, s = one(x, st, fr)
            else:
                self.assign(st.target, x, fr, st, silent=True)
                r, b, s = self.block(st.body, fr)
            stop = mk_or(r, b, s)
            R, S = mk_or(R, mk_and(mk_not(mk_or(R, S)), r)), mk_or(S, mk_and(mk_not(mk_or(R, S)), s))
            if stop is TRUE:
                break
            if stop is not FALSE:
                self.guards.append((mk_not(stop), True))
        del self.guards[ng:]
        return (R, FALSE, S)

    def while_loop(self, st, fr):
        return self.loop_common(st, fr, None, None, None)

    def loop_common(self, st, fr, iters, cond, elt):
        names = assigned_in(st)
        outer = self.outer_mutated = []
        names += [x for x in self.passed_mutated(st, fr) if x not in names]
        for b, n in mutated_attrs(st):
            k = ('@', fr.env[b], n) if b in fr.env else None
            if k is not None and k not in fr.env and self.field_cell(fr.env[b], n):
                fr.env[k] = self.getattr(fr.env[b], n)
            if k in fr.env and k not in names:
                names.append(k)
        env0 = dict(fr.env)
        # equal initial values are told apart by the order of their definitions
        pos = {k: i for i, k in enumerate(fr.env)}
        names.sort(key=lambda n: pos.get(n, len(pos)))
        carried = {}
        seen = {}
        depth = len(self.loops)
        for n in names:
            if n in fr.env:
                key = iters if iters is not None else 'while'
                k = seen.get(fr.env[n], 0)
                seen[fr.env[n]] = k + 1
                pm = self.carry.get((fr.env[n], key, depth))
                c = T('carried', fr.env[n], key, pm.get(k, k) if pm else k, depth)
                carried[n] = c
                fr.env[n] = c
        ocar = []
        for lex, x in dict.fromkeys(outer):
            # a container of another frame, updated by a local function of that frame
            key = iters if iters is not None else 'while'
            v = lex.env[x]
            k = seen.get(v, 0)
            seen[v] = k + 1
            c = T('carried', v, key, k, depth)
            ocar.append((lex, x, c, v))
            lex.env[x] = c
        ng, nl = len(self.guards), len(self.loops)
        ne, ny = len(self.s.effects), len(fr.yields)
        if iters is None:
            wc = truth(self.ev(st.test, fr))
            iters = (T('while', wc),)
            cond = TRUE
            self.loops.extend(iters)
            if wc is not TRUE:
                self.guards.append((wc, False))
        else:
            self.loops.extend(iters)
            if cond is not TRUE:
                self.guards.append((cond, False))
        self.breaks = self.breaks + [[]]
        self.loop_gbase = self.loop_gbase + [len(self.guards)]
        if elt is not None:
            self.assign(st.target, elt, fr, st, silent=True)
        ret, brk, rs = self.block(st.body, fr)
        exits = self.breaks[-1]
        bks = [g for k, g, _ in exits if k == 'break']
        self.breaks = self.breaks[:-1]
        self.loop_gbase = self.loop_gbase[:-1]
        del self.guards[ng:]
        del self.loops[nl:]
        oiters = iters
        if bks:
            iters = (T('until', mk_or(*bks), iters),)
            # what the body does, it does until the loop is left
            for e in self.s.effects[ne:]:
                if e.kind not in ('raise', 'assert', 'ret') and e.loops[nl:nl + len(oiters)] == oiters:
                    e.loops = e.loops[:nl] + iters + e.loops[nl + len(oiters):]
            lo = nl - fr.lbase
            for i in range(ny, len(fr.yields)):
                g, l, t, sp = fr.yields[i]
                if l[lo:lo + len(oiters)] == oiters:
                    fr.yields[i] = (g, l[:lo] + iters + l[lo + len(oiters):], t, sp)
        envb = fr.env
        # values live at continue/break reach the end of the iteration too
        fall = mk_or(ret, brk, rs)
        for k, g, e in reversed(exits):
            envb = dict(e) if fall is TRUE and envb is fr.env else self.merge(g, e, envb)
        fr.env = env0
        bg = mk_or(*bks)
        for lex, x, c, v in ocar:
            lex.env[x] = self.close_loop(c, lex.env.get(x, c), v, iters, cond, bg, oiters)
        for n, new in envb.items():
            if n in carried:
                init = env0[n]
                fr.env[n] = self.close_loop(carried[n], new, init, iters, cond, bg, oiters)
                if new is not carried[n]:
                    self.s.advanced[carried[n]] = (new, st, mk_and(cond, mk_not(mk_or(ret, rs, bg))))
                if new is not carried[n] and (seen.get(init) == 1 or (fr.env[n].op == 'loop' and not empty_container(init))):
                    self.s.loopvars.setdefault(carried[n], []).append((new, fr.fi, st, mk_and(cond, mk_not(mk_or(ret, rs, bg)))))
            elif n not in env0:
                fr.env[n] = new if not isinstance(n, tuple) else new
            elif new is not env0[n]:
                fr.env[n] = T('loop', env0[n], new, iters)
        if st.orelse:
            nb = mk_any(mk_or(*bks), oiters) if bks else FALSE
            if nb is not FALSE:
                self.guards.append((mk_not(nb), False))
            o = self.block(st.orelse, fr)
            if nb is not FALSE:
                self.guards.pop()
        else:
            o = (FALSE, FALSE, FALSE)
        wrap = lambda c: FALSE if c is FALSE else mk_any(mk_and(cond, c), oiters)
        if ret is TRUE and oiters and oiters[0].op == 'while' and oiters[0].a[0] is TRUE:
            return (TRUE, FALSE, FALSE)
        return (mk_or(wrap(ret), o[0]), o[1], mk_or(wrap(rs), o[2]))

    def passed_mutated(self, st, fr, depth=0):
        """Names handed to inlined helpers that update them in place."""
        out = []
        for n in ast.walk(st):
            if not isinstance(n, ast.Call) or not isinstance(n.func, (ast.Name, ast.Attribute)):
                continue
            if isinstance(n.func, ast.Name):
                f = self.name(n.func.id, fr)
            elif isinstance(n.func.value, ast.Name) and n.func.value.id in ('self', 'cls'):
                f = attr(param(n.func.value.id), n.func.attr)
            else:
                continue
            if not self.inline_target(f, fr):
                continue
            fi = self.target_of(f, fr)
            if fi is None:
                continue
            if f in self.closures:
                cap = captured_mutated(fi.node)
                lex = self.closures[f][1]
                out += [x for x in cap if x in fr.env]
                self.outer_mutated += [(lex, x) for x in cap if x not in fr.env and lex is not None and x in lex.env]
                if depth < 3 and not isinstance(fi.node, ast.Lambda):
                    own = set(own_params(fi.node)) | names_of(fi.node)
                    out += [x for x in self.passed_mutated(fi.node, fr, depth + 1) if x in fr.env and x not in own]
            mp = self.updated_params(fi, fr)
            if not mp:
                continue
            ps = own_params(fi.node)
            off = len(self.closures[f][3]) if f in self.closures else 1 if fi.is_classmethod or (f.op == 'attr' and not fi.is_static) else 0
            for i, a in enumerate(n.args):
                if isinstance(a, ast.Name) and i + off < len(ps) and ps[i + off] in mp:
                    out.append(a.id)
            for k in n.keywords:
                if isinstance(k.value, ast.Name) and k.arg in mp:
                    out.append(k.value.id)
        return list(dict.fromkeys(out))

    def updated_params(self, fi, fr, depth=0):
        """Parameters of a helper updated in place by it, or by the helpers it hands them to."""
        mp = mutated_params(fi.node)
        if not mp or isinstance(fi.node, ast.Lambda) or depth > 3:
            return mp
        out = set(mutated_params(fi.node, False))
        for n in ast.walk(fi.node):
            if not isinstance(n, ast.Call) or isinstance(n.func, ast.Attribute) and n.func.attr in MUT_ANY and isinstance(n.func.value, ast.Name):
                continue
            given = [a.id for a in n.args if isinstance(a, ast.Name) and a.id in mp] + [k.value.id for k in n.keywords if isinstance(k.value, ast.Name) and k.value.id in mp]
            if not given:
                continue
            if isinstance(n.func, ast.Name):
                r = fi.mod.names.get(n.func.id)
                if r is None and not hasattr(builtins, n.func.id):
                    # a local function
                    out.update(given)
                    continue
                g = r[1] if r and r[0] == 'func' and self.should_inline(r[1]) else None
            elif isinstance(n.func.value, ast.Name) and n.func.value.id in ('self', 'cls'):
                f = attr(param(n.func.value.id), n.func.attr)
                g = self.target_of(f, fr) if self.inline_target(f, fr) else None
            else:
                continue
            if g is None:
                continue
            gm = self.updated_params(g, fr, depth + 1)
            ps = own_params(g.node)
            off = 1 if g.is_classmethod or isinstance(n.func, ast.Attribute) and not g.is_static else 0
            for i, a in enumerate(n.args):
                if isinstance(a, ast.Name) and a.id in mp and i + off < len(ps) and ps[i + off] in gm:
                    out.add(a.id)
            out.update(k.value.id for k in n.keywords if isinstance(k.value, ast.Name) and k.value.id in mp and k.arg in gm)
        return tuple(sorted(out))

    def close_loop(self, car, new, init, iters, cond, bg=FALSE, oiters=None):
        if new is car:
            return init
        parts = self.gather(new, car, cond)
        if new.op == 'mut' and new.a[0] is car and new.a[1] == 'setitem' and new.a[2][0] is T('elem', iters[0]) and cond is TRUE and bg is FALSE \
                and init.op == 'call' and not init.a[1] and init.a[0].op == 'attr' and init.a[0].a[1] == 'copy' and iters in ((init,), (init.a[0].a[0],)):
            # every value of the copy is replaced
            d = init.a[0].a[0]
            return T('map', (('manykv', T('elem', d), subst(new.a[2][1], {T('elem', init): T('elem', d)}), (d,), TRUE),))
        if parts is not None and parts:
            kind = parts[0][0]
            if kind in ('seq', 'setof', 'map') and all(p[0] == kind for p in parts):
                res = self.as_parts(init, kind)
                if res is not None:
                    out = list(res)
                    for _, g, p in self.join(parts):
                        out.append(self.many(p, iters, g, kind))
                    return T(kind, tuple(out))
            if kind == '+' and all(p[0] == '+' for p in parts):
                acc = init
                for _, g, x in parts:
                    acc = T('sum', acc, x, iters, g)
                return acc
            if kind == 'flag' and all(p[0] == 'flag' for p in parts) and (len(parts) == 1 or all(is_const(p[2]) for p in parts)):
                acc = init
                for _, g, x in parts:
                    a = mk_any(g, oiters or iters)
                    if not is_const(x) and not (bg is not FALSE and mk_and(cond, bg) is g):
                        x = T('last', x, g, iters)
                    acc = mk_phi(a, x, acc)
                return acc
        return T('loop', init, mk_phi(cond, new, car), iters)

    def join(self, parts):
        """One element per iteration, chosen by a test, however the test is spelled."""
        out = []
        for k, g, p in parts:
            if out:
                k0, g0, p0 = out[-1]
                if p[0] == p0[0] == 'kv' and p[1] is p0[1]:
                    out[-1] = (k, mk_or(g0, g), ('kv', p[1], mk_phi(g, p[2], p0[2])))
                    continue
                if p[0] == p0[0] == 'item' and k == 'seq' and mk_and(g, g0) is FALSE:
                    out[-1] = (k, mk_or(g0, g), ('item', mk_phi(g0, p0[1], p[1])))
                    continue
            out.append((k, g, p))
        return out

    def many(self, p, iters, g, kind='seq'):
        if p[0] == 'item':
            return ('many', p[1], iters, g)
        if p[0] in ('splat', 'manysplat'):
            if p[0] == 'manysplat':
                iters, g = iters + p[2], mk_and(g, p[3])
            if kind == 'map':
                return ('manysplat', p[1], iters, g)
            # [*x for x in xs] is [y for x in xs for y in x]
            e, i, c = self.iterate(p[1], self.frame, None)
            return ('many', e, iters + i, mk_and(g, c))
        if p[0] == 'many':
            return ('many', p[1], iters + p[2], mk_and(g, p[3]))
        if p[0] == 'kv':
            return ('manykv', p[1], p[2], iters, g)
        if p[0] == 'manykv':
            return ('manykv', p[1], p[2], iters + p[3], mk_and(g, p[4]))
        return p

    def as_parts(self, t, kind):
        if t.op == kind:
            return t.a[0]
        if t.op == 'call' and callee_is(t, 'collections.defaultdict') and kind == 'map':
            return (('default', t),)
        if t.op in ('seq', 'setof', 'map', 'const'):
            return None
        return (('splat', t),)

    def ckind(self, t, n=0):
        """Kind of the container a value was built from."""
        if n > 12:
            return None
        if t.op in ('seq', 'setof', 'map'):
            return t.op
        if t.op in ('carried', 'mut', 'loop'):
            return self.ckind(t.a[0], n + 1)
        if t.op == 'phi':
            return self.ckind(t.a[1], n + 1) or self.ckind(t.a[2], n + 1)
        if t.op == 'call' and t.a[0].op == 'global':
            return {'collections.defaultdict': 'map', 'collections.OrderedDict': 'map', 'builtins.dict': 'map', 'builtins.set': 'setof',
                    'builtins.list': 'seq', 'builtins.sorted': 'seq'}.get(t.a[0].a[0]) or self.returns_kind(t.a[0].a[0])
        return None

    def returns_kind(self, qual):
        """Kind of the container a function of the code base returns, if every return shows it."""
        r = self.p.lookup(qual) if qual.startswith(PKG) else (None,)
        if r[0] != 'func':
            return None
        fi = r[1]
        k = getattr(fi, 'kind_', 0)
        if k == 0:
            fi.kind_ = None
            k = fi.kind_ = kind_returned(fi.node)
        return k

    def gather(self, t, car, g):
        """Accumulation deltas of loop-carried value: list of (kind, guard, part) or None."""
        if t is car:
            return []
        if t.op == 'phi':
            c = t.a[0]
            if any(x is car for x in walk(c)):
                return None
            a = self.gather(t.a[1], car, mk_and(g, c))
            b = self.gather(t.a[2], car, mk_and(g, mk_not(c)))
            if a is None or b is None:
                return None
            return a + b
        if t.op in ('seq', 'setof', 'map') and t.a[0] and t.a[0][0] == ('splat', car):
            rest = t.a[0][1:]
            if any(x is car for p in rest for x in walk(*[q for q in flat(p)])):
                return None
            return [(t.op, g, p) for p in rest]
        if t.op in ('seq', 'setof', 'map') and t.a[0] and t.a[0][0][0] == 'splat' and t.a[0][0][1].op == 'phi':
            a = self.gather(t.a[0][0][1], car, g)
            if a is None:
                return None
            return a + [(t.op, g, p) for p in t.a[0][1:]]
        if t.op == 'bin' and t.a[0] == '+' and not any(x is car for x in walk(t.a[2])):
            a = self.gather(t.a[1], car, g)
            if a is None or any(p[0] != '+' for p in a):
                return None
            return a + [('+', g, t.a[2])]
        if not any(x is car for x in walk(t)):
            return [('flag', g, t)]
        return None

    def iterate(self, it, fr, node):
        """-> (element term, iters tuple, cond)"""
        if it.op == 'call':
            f = it.a[0]
            nm = f.a[0] if f.op == 'global' else None
            if nm in ('builtins.list', 'builtins.tuple', 'builtins.iter') and len(it.a[1]) == 1:
                return self.iterate(it.a[1][0][1], fr, node)
            if nm == 'builtins.enumerate':
                e, i, c = self.iterate(it.a[1][0][1], fr, node)
                start = arg(it, 1, 'start')
                idx = T('index', i)
                if start is not None and not is_const(start, 0):
                    idx = T('bin', '+', idx, start)
                return T('tup', idx, e), i, c
            if nm == 'builtins.zip' and all(isinstance(k, int) for k, _ in it.a[1]) and it.a[1]:
                es, its, cs = [], [], []
                for _, a in it.a[1]:
                    e, i, c = self.iterate(a, fr, node)
                    es.append(e)
                    its.append(i)
                    cs.append(c)
                if all(x is its[0] or x == its[0] for x in its) and all(c is cs[0] for c in cs):
                    return T('tup', *es), its[0], cs[0]
                flat = [x for i in its for x in ([T('its', *i)] if len(i) != 1 else i[0].a if i[0].op == 'zip' else i)]
                return T('tup', *es), (T('zip', *flat),), mk_and(*cs)
            if nm == 'builtins.map' and len(it.a[1]) == 2:
                e, i, c = self.iterate(it.a[1][1][1], fr, node)
                return self.apply(it.a[1][0][1], ((0, e),), fr, node), i, c
            if nm == 'builtins.filter' and len(it.a[1]) == 2:
                e, i, c = self.iterate(it.a[1][1][1], fr, node)
                p = it.a[1][0][1]
                return e, i, mk_and(c, truth(e if p is NONE else self.apply(p, ((0, e),), fr, node)))
            if nm == 'builtins.range' and len(it.a[1]) == 1:
                la = len_arg(it.a[1][0][1])
                if la is not None:
                    return T('index', (la,)), (la,), TRUE
            if nm == 'builtins.sorted' and len(it.a[1]) == 1:
                d = it.a[1][0][1]
                if d.op == 'call' and d.a[0].op == 'attr' and not d.a[1]:
                    if d.a[0].a[1] == 'items':
                        base = T('call', f, ((0, d.a[0].a[0]),))
                        e = T('elem', base)
                        return T('tup', e, self.sub(d.a[0].a[0], e)), (base,), TRUE
                    if d.a[0].a[1] == 'keys':
                        base = T('call', f, ((0, d.a[0].a[0]),))
                        return T('elem', base), (base,), TRUE
            if f.op == 'attr' and not it.a[1]:
                d = f.a[0]
                if f.a[1] in ('items', 'keys', 'values') and d.op == 'phi' and (empty_container(d.a[1]) or empty_container(d.a[2])):
                    # nothing in one case
                    g, x = (mk_not(d.a[0]), d.a[2]) if empty_container(d.a[1]) else (d.a[0], d.a[1])
                    e, i, c = self.iterate(T('call', attr(x, f.a[1]), ()), fr, node)
                    return e, i, mk_and(g, c)
                if f.a[1] in ('items', 'keys', 'values'):
                    if d.op == 'map' and len(d.a[0]) == 1 and d.a[0][0][0] == 'manykv':
                        _, kk, vv, ii, cc = d.a[0][0]
                        return {'items': T('tup', kk, vv), 'keys': kk, 'values': vv}[f.a[1]], ii, cc
                    e = T('elem', d)
                    if f.a[1] == 'items':
                        return T('tup', e, self.sub(d, e)), (d,), TRUE
                    if f.a[1] == 'keys':
                        return e, (d,), TRUE
                    return self.sub(d, e), (d,), TRUE
        if it.op == 'seq' and len(it.a[0]) == 1:
            p = it.a[0][0]
            if p[0] == 'many':
                return p[1], p[2], p[3]
            if p[0] == 'splat':
                return self.iterate(p[1], fr, node)
        if it.op == 'map' and len(it.a[0]) == 1 and it.a[0][0][0] == 'manykv':
            p = it.a[0][0]
            return p[1], p[3], p[4]
        if it.op == 'phi' and not any(x.op == 'call' and callee_is(x, 'builtins.map', 'builtins.filter') for x in it.a[1:]):
            # the same elements, filtered in one case
            a, b = (self.iterate(x, fr, node) for x in it.a[1:])
            if a[0] is b[0] and a[1] == b[1]:
                return a[0], a[1], mk_or(mk_and(it.a[0], a[2]), mk_and(mk_not(it.a[0]), b[2]))
            if empty_container(it.a[1]):
                return b[0], b[1], mk_and(mk_not(it.a[0]), b[2])
            if empty_container(it.a[2]):
                return a[0], a[1], mk_and(it.a[0], a[2])
        return T('elem', it), (it,), TRUE

    def try_stmt(self, st, fr):
        env0 = dict(fr.env)
        hs = []
        for h in st.handlers:
            if h.type is None:
                hs.append(('*',))
            else:
                t = self.ev(h.type, fr)
                hs.append(tuple(x.a[0] if x.op == 'global' else show(x) for x in (t.a if t.op == 'tup' else (t,))))
        self.ctx.append(('try', tuple(hs), bool(st.finalbody)))
        n0 = len(fr.rets)
        r = self.block(st.body, fr)
        n1 = len(fr.rets)
        self.ctx.pop()
        envb = fr.env
        out = r
        hcs = []
        cur = envb
        hres = []
        for h, types in zip(st.handlers, hs):
            c = T('caught', types, st.lineno - fr.fi.node.lineno if False else len(self.ctx))
            fr.env = dict(env0)
            for k in envb:
                if k not in fr.env:
                    fr.env[k] = envb[k]
            if h.name:
                fr.env[h.name] = T('exc', types)
            self.guards.append((c, False))
            self.ctx.append(('handler', types))
            rr = self.block(h.body, fr)
            self.ctx.pop()
            self.guards.pop()
            hres.append((c, rr, fr.env))
        fr.env = envb
        body_exit = mk_or(*r)
        ret, brk, rs = r
        for c, rr, e in reversed(hres):
            if mk_or(*rr) is TRUE:
                pass
            elif body_exit is TRUE:
                fr.env = e
            else:
                fr.env = self.merge(c, e, fr.env)
        if hres:
            hc = mk_or(*[c for c, _, _ in hres])
            for i in range(n0, n1):
                fr.rets[i] = (mk_and(mk_not(hc), fr.rets[i][0]),) + fr.rets[i][1:]
            ret = mk_and(mk_not(hc), ret)
            brk = mk_and(mk_not(hc), brk)
            rs = mk_and(mk_not(hc), rs)
            for c, rr, _ in hres:
                ret, brk, rs = mk_or(ret, mk_and(c, rr[0])), mk_or(brk, mk_and(c, rr[1])), mk_or(rs, mk_and(c, rr[2]))
        if st.orelse:
            n = 0
            if hres:
                self.guards.append((mk_not(hc), True))
                n = 1
            o = self.block(st.orelse, fr)
            if n:
                self.guards.pop()
            ret, brk, rs = mk_or(ret, o[0]), mk_or(brk, o[1]), mk_or(rs, o[2])
        if st.finalbody:
            self.ctx.append(('finally',))
            f = self.block(st.finalbody, fr)
            self.ctx.pop()
            ret, brk, rs = mk_or(ret, f[0]), mk_or(brk, f[1]), mk_or(rs, f[2])
        return ret, brk, rs

    # -- assignment
    def lvalue_name(self, node):
        return node.id if isinstance(node, ast.Name) else None

    def assign(self, t, v, fr, node, silent=False):
        if isinstance(t, ast.Name):
            if t.id in fr.globals:
                self.eff('setglobal', T('setglobal', fr.fi.mod.name + '.' + t.id, v), node, fr)
            elif t.id in fr.nonlocals:
                self.eff('setnonlocal', T('setnonlocal', t.id, v), node, fr)
                fr.env[t.id] = v
                f = fr.lexical
                while f is not None:
                    if t.id in f.env:
                        f.env[t.id] = v
                        break
                    f = f.lexical
            else:
                fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, T('slice', v, const(i), const(i - len(t.elts) + 1) if i + 1 < len(t.elts) else NONE), fr, node, silent)
                else:
                    if star and i > star[0]:
                        ix = const(i - len(t.elts))
                    else:
                        ix = const(i)
                    self.assign(e, self.sub(v, ix), fr, node, silent)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, fr)
            self.eff('setattr', T('setattr', b, t.attr, v), node, fr)
            fr.env[('@', b, t.attr)] = v
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, fr)
            i = self.ev(t.slice, fr)
            self.eff('setitem', T('setitem', b, i, v), node, fr)
            self.update_container(t.value, b, lambda cur: self.set_item(cur, i, v), fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, node, silent)

    def update_container(self, node, b, fn, fr):
        if isinstance(node, ast.Name) and node.id in fr.env:
            fr.env[node.id] = self.grown(fr.env[node.id], fn)
        elif isinstance(node, ast.Name):
            f = fr.lexical
            while f is not None:
                if node.id in f.env:
                    f.env[node.id] = self.grown(f.env[node.id], fn)
                    return
                f = f.lexical
        elif isinstance(node, ast.Attribute):
            base = self.ev(node.value, fr)
            k = ('@', base, node.attr)
            if k not in fr.env and isinstance(node.value, ast.Name) and self.field_cell(base, node.attr):
                fr.env[k] = self.getattr(base, node.attr)
            if k in fr.env:
                fr.env[k] = fn(fr.env[k])
        elif isinstance(node, ast.Subscript):
            # an entry of a container made here: d[i][j] = v
            r = node
            while isinstance(r, ast.Subscript):
                r = r.value
            if isinstance(r, ast.Name) and self.ckind(self.ev(node.value, fr)) is not None:
                i = self.ev(node.slice, fr)
                self.update_container(node.value, None, lambda cur: T('mut', cur, 'setitem', (i, fn(self.sub(cur, i)))), fr)

    def field_cell(self, base, name):
        """A field of a record made here that holds a container made here."""
        return base.op == 'call' and base.a[0].op == 'global' and name in dict(base.a[1]) and dict(base.a[1])[name].op in ('seq', 'map', 'setof') \
            and self.getattr(base, name) is dict(base.a[1])[name]

    def settle(self, v, fr):
        """A record whose container fields were filled after it was made."""
        if v.op != 'call' or not any(isinstance(k, tuple) and k[0] == '@' and k[1] is v for k in fr.env):
            return v
        return T('call', v.a[0], tuple((k, fr.env.get(('@', v, k), x)) if self.field_cell(v, k) else (k, x) for k, x in v.a[1]))

    def grown(self, cur, fn):
        """New value of a container updated in place; one that other code sees stays known as such."""
        new = fn(cur)
        r = cur
        while r not in self.s.shared and r.op in ('carried', 'mut', 'loop'):
            r = r.a[0]
        if r in self.s.shared or r.op in ('param', 'attr', 'sub') or (r.op == 'call' and callee_is(r, '.get_collection_ref')):
            self.s.shared.add(new)
        return new

    def set_item(self, cur, i, v):
        if i.op == 'sl' and i.a[0] is NONE and is_const(i.a[1], 0) and i.a[2] is NONE:
            ps = self.as_parts(cur, 'seq')
            if ps is not None:
                return T('seq', tuple(self.spread(v)) + tuple(ps))
        if cur.op == 'map':
            return T('map', cur.a[0] + (('kv', i, v),))
        if self.ckind(cur) != 'seq' and (cur.op in ('carried', 'phi') or (cur.op == 'call' and callee_is(cur, 'collections.defaultdict', 'builtins.dict'))):
            return T('map', (('splat', cur),) + (('kv', i, v),))
        return T('mut', cur, 'setitem', (i, v))

    def augassign(self, st, fr):
        op = BIN[type(st.op)]
        v = self.ev(st.value, fr)
        if isinstance(st.target, ast.Name):
            old = self.ev(st.target, fr)
            if op == '|' and self.ckind(old) in ('setof', 'map'):
                self.mutate(ast.copy_location(ast.Name(st.target.id, ast.Load()), st), old, 'update', ((0, v),), fr)
                return (FALSE, FALSE, FALSE)
            new = self.binop(op, old, v)
            self.eff('aug', T('aug', old, op, v), st, fr)
            self.assign(st.target, new, fr, st)
        else:
            tgt = st.target
            old = self.ev(ast.copy_location(ast.Attribute(tgt.value, tgt.attr, ast.Load()), tgt) if isinstance(tgt, ast.Attribute)
                          else ast.copy_location(ast.Subscript(tgt.value, tgt.slice, ast.Load()), tgt), fr)
            self.assign(tgt, self.binop(op, old, v), fr, st)
        return (FALSE, FALSE, FALSE)

    # ------------------------------------------------------------ expressions
    def ev(self, n, fr):
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            return T('opaque', type(n).__name__)
        return m(n, fr)

    def ev_Constant(self, n, fr):
        return const(n.value)

    def ev_Name(self, n, fr, call=False):
        t = self.name(n.id, fr)
        if t.op == 'closure' and not call:
            return self.escape(t, fr, n)
        elif t.op == 'global':
            v = self.new_constant(t, fr)
            if v is not None:
                return v
            if not call:
                r = self.inlinable_global(t)
                if r is not None:
                    return self.escape(self.make_closure(r, None), fr, n)
        return t

    def new_constant(self, t, fr):
        """Value of a module/class constant that is not part of the shared vocabulary."""
        if self.globals_base is None or not t.a[0].startswith(PKG) or t.a[0] in self.globals_base:
            return None
        r = self.p.lookup(t.a[0])
        if r[0] == 'assign' and len(r[2].module_assigns.get(t.a[0].rsplit('.', 1)[1], ())) == 1:
            node, mod, cls = r[1], r[2], None
        elif r[0] == 'classattr':
            node, mod, cls = r[3], r[1].mod, r[1]
        else:
            return None
        if node in self.stack or len(self.stack) > self.MAXDEPTH:
            return None
        self.stack.append(node)
        mf = Frame(FuncInfo(fr.fi.qual, node, mod), cls, {}, parent=fr)
        v = self.ev(node, mf)
        self.stack.pop()
        return v

    def name(self, nm, fr):
        f = fr
        if nm not in fr.globals:
            while f is not None:
                if nm in f.env:
                    return f.env[nm]
                f = f.lexical
        d = self.p.dotted(fr.fi.mod, ast.Name(nm, ast.Load()))
        return glob(d) if d else glob('?' + nm)

    def inlinable_global(self, t):
        r = self.p.lookup(t.a[0]) if t.a[0].startswith(PKG) else None
        if r and r[0] == 'func' and self.should_inline(r[1]):
            return r[1]
        return None

    def should_inline(self, fi):
        if self.baseline is not None and fi.qual not in self.baseline and fi.qual.startswith(PKG):
            return True
        return bool(self.inline_extra(fi))

    def ev_Attribute(self, n, fr, call=False):
        b = self.ev(n.value, fr)
        k = ('@', b, n.attr)
        f = fr
        while f is not None:
            if k in f.env:
                return f.env[k]
            f = f.parent
        t = self.getattr(b, n.attr)
        if t.op == 'global':
            t = glob(self.p.canon(t.a[0]))
            if not call:
                r = self.inlinable_global(t)
                if r is not None:
                    return self.escape(self.make_closure(r, None), fr, n)
            v = self.new_constant(t, fr)
            if v is not None:
                return v
        elif t.op == 'attr' and (b is param('self') or b is param('cls')) and fr.cls is not None and self.p.method(fr.cls, n.attr) is None:
            q = self.class_const(fr.cls, n.attr)
            if q is not None:
                v = self.new_constant(glob(q), fr)
                if v is not None:
                    return v
        elif t.op == 'attr' and b is param('self') and fr.cls is not None:
            mth = self.p.method(fr.cls, n.attr)
            if mth is not None and mth.is_property:
                x = self.plain_property(mth)
                if x is not None:
                    return self.ev_Attribute(ast.copy_location(ast.Attribute(n.value, x, ast.Load()), n), fr)
            if mth is not None and self.should_inline(mth):
                if mth.is_property:
                    return self.invoke(mth, ((('self'), b),), fr, n, cls=fr.cls)
                if not call:
                    return self.escape(self.make_closure(mth, None, bound=(b,), cls=fr.cls), fr, n)
        return t

    def plain_property(self, m):
        """The attribute a property hands out as it is, when no other class redefines the property."""
        if m.qual in self.plainprops:
            return self.plainprops[m.qual]
        r = self.plainprops[m.qual] = None
        if not any(m.cls in self.p.mro(k) and k is not m.cls and m.node.name in k.methods for k in self.p.classes()):
            a = Analyzer(self.p, self.inline_extra, self.baseline, self.param_names, self.globals_base)
            a.plainprops = self.plainprops
            s = a.summarize(m)
            if s.ret.op == 'attr' and s.ret.a[0] is param('self') and all(e.kind == 'ret' for e in s.effects):
                r = s.ret.a[1]
                if self.p.method(m.cls, r) is not None:
                    r = None
        self.plainprops[m.qual] = r
        return r

    def class_const(self, cls, name):
        for k in self.p.mro(cls):
            if isinstance(k, ClassInfo) and name in k.attrs:
                return k.qual + '.' + name
        return None

    def getattr(self, b, name):
        if b.op == 'call' and b.a[0].op == 'global':
            flds = self.p.record(b.a[0].a[0]) if b.a[0].a[0].startswith(PKG) else None
            if flds and name in flds:
                v = dict((k, v) for k, v in b.a[1]).get(name)
                if v is not None:
                    return v
            if name in RESULT_FIELDS.get(b.a[0].a[0], ()):
                return self.sub(b, const(RESULT_FIELDS[b.a[0].a[0]].index(name)))
        if b.op == 'call' and b.a[0].op == 'attr' and b.a[0].a[1] == '_replace':
            d = dict(b.a[1])
            if name in d:
                return d[name]
            if '**' not in d:
                return self.getattr(b.a[0].a[0], name)
        return attr(b, name)

    def sub(self, b, i):
        if i.op == 'global' and i.a[0] == 'tensorflow.newaxis':
            return T('call', glob('tensorflow.expand_dims'), ((0, b), ('axis', const(0))))
        if is_const(i) and isinstance(cval(i), int) and not isinstance(cval(i), bool):
            k = cval(i)
            if b.op == 'tup' and -len(b.a) <= k < len(b.a):
                return b.a[k]
            if b.op == 'seq' and all(p[0] == 'item' for p in b.a[0]) and -len(b.a[0]) <= k < len(b.a[0]):
                return b.a[0][k][1]
            if b.op == 'seq' and 0 <= k < len(b.a[0]) and all(p[0] == 'item' for p in b.a[0][:k + 1]):
                return b.a[0][k][1]
            if b.op == 'phi' and (b.a[1].op in ('tup', 'phi') or b.a[2].op in ('tup', 'phi')) and has_tup(b):
                x, y = self.sub(b.a[1], i), self.sub(b.a[2], i)
                return mk_phi(b.a[0], x, y)
            if b.op == 'call' and b.a[0].op == 'global' and b.a[0].a[0].startswith(PKG):
                fl = self.p.record(b.a[0].a[0])
                if fl and 0 <= k < len(fl):
                    return self.getattr(b, fl[k])
            if b.op == 'slice' and len(b.a) == 3 and k >= 0 and (b.a[1] is NONE or is_const(b.a[1]) and isinstance(cval(b.a[1]), int) and cval(b.a[1]) >= 0) \
                    and (b.a[2] is NONE or is_const(b.a[2]) and isinstance(cval(b.a[2]), int)):
                return self.sub(b.a[0], const(k + (0 if b.a[1] is NONE else cval(b.a[1]))))
            if b.op == 'call' and b.a[0].op == 'attr':
                # the first or the last of the pieces
                m, xs = b.a[0].a[1], dict(b.a[1])
                if m in ('split', 'rsplit') and 0 in xs and len(xs) == 2 and is_const(xs.get(1, xs.get('maxsplit')), 1) and k == (0 if m == 'split' else -1) \
                        or m == ('partition' if k == 0 else 'rpartition') and k in (0, 2) and list(xs) == [0]:
                    return T('sub', T('call', T('attr', b.a[0].a[0], 'split'), ((0, xs[0]),)), const(0 if k == 0 else -1))
        if b.op == 'attr' and b.a[1] == 'T' and i.op != 'tup':
            return T('sub', b.a[0], T('tup', T('sl', NONE, NONE, NONE), i))
        if i.op == 'index' and i.a[0] == (b,):
            return T('elem', b)
        if b.op == 'map' and is_const(i) and all(p[0] == 'kv' and is_const(p[1]) for p in b.a[0]):
            for p in reversed(b.a[0]):
                if p[1] is i:
                    return p[2]
        if dispatch_table(b) and not is_const(i):
            # a choice by table
            ps = list({p[1]: p for p in b.a[0]}.values())
            r = ps[-1][2]
            for p in reversed(ps[:-1]):
                r = mk_phi(mk_eq(i, p[1]), p[2], r)
            return r
        return T('sub', b, i)

    def slice(self, b, lo, hi, stp=NONE):
        if is_const(stp, -1) and lo is NONE and hi is NONE:
            return T('call', glob('builtins.reversed'), ((0, b),))
        if lo is NONE and hi is NONE and stp is NONE and (self.ckind(b) == 'seq' or b.op == 'call' and callee_is(b, '.get_collection_ref')):
            return T('call', glob('builtins.list'), ((0, b),))
        if stp is NONE and b.op == 'slice' and len(b.a) == 3 and b.a[2] is NONE and all(is_const(x) and isinstance(cval(x), int) and cval(x) >= 0 for x in (b.a[1], lo)):
            if hi is NONE:
                return T('slice', b.a[0], const(cval(b.a[1]) + cval(lo)), NONE)
        return T('slice', b, lo, hi) if stp is NONE else T('slice', b, lo, hi, stp)

    def ev_Subscript(self, n, fr):
        b = self.ev(n.value, fr)
        if isinstance(n.slice, ast.Slice):
            s = n.slice
            lo = self.ev(s.lower, fr) if s.lower else NONE
            hi = self.ev(s.upper, fr) if s.upper else NONE
            stp = self.ev(s.step, fr) if s.step else NONE
            return self.slice(b, lo, hi, stp)
        return self.sub(b, self.ev(n.slice, fr))

    def ev_Slice(self, n, fr):
        return T('sl', *[self.ev(x, fr) if x is not None else NONE for x in (n.lower, n.upper, n.step)])

    def ev_Starred(self, n, fr):
        return T('star', self.ev(n.value, fr))

    def ev_Tuple(self, n, fr):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self.seq_display(n.elts, fr)
        return T('tup', *[self.ev(e, fr) for e in n.elts])

    def seq_display(self, elts, fr):
        parts = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, fr)
                parts.extend(self.spread(v))
            else:
                parts.append(('item', self.ev(e, fr)))
        return T('seq', tuple(parts))

    def spread(self, v):
        if v.op == 'seq':
            return list(v.a[0])
        if v.op == 'tup':
            return [('item', x) for x in v.a]
        if v.op == 'call' and callee_is(v, 'builtins.list', 'builtins.tuple') and len(v.a[1]) == 1:
            return self.spread(v.a[1][0][1])
        if v.op == 'call' and callee_is(v, 'builtins.map', 'builtins.filter') and len(v.a[1]) == 2:
            e, i, c = self.iterate(v, self.frame, None)
            return [('many', e, i, c)]
        if v.op == 'phi':
            # *(xs or []), *(xs if c else [])
            for x, y, g in ((v.a[1], v.a[2], v.a[0]), (v.a[2], v.a[1], mk_not(v.a[0]))):
                if y.op in ('seq', 'tup') and not (y.a[0] if y.op == 'seq' else y.a) and v.a[0] is not truth(x):
                    return [under(p, g) for p in self.spread(x)]
        return [('splat', v)]

    def entries(self, d):
        if d.op == 'map':
            return d.a[0]
        if d.op == 'phi':
            for x, y, g in ((d.a[1], d.a[2], d.a[0]), (d.a[2], d.a[1], mk_not(d.a[0]))):
                if y.op == 'map' and not y.a[0] and all(p[0] != 'default' for p in self.entries(x)):
                    return tuple(under(p, g) for p in self.entries(x))
        return (('splat', d),)

    def ev_List(self, n, fr):
        return self.seq_display(n.elts, fr)

    def ev_Set(self, n, fr):
        return T('setof', self.seq_display(n.elts, fr).a[0])

    def ev_Dict(self, n, fr):
        parts = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.ev(v, fr)
                parts.extend(self.entries(d))
            else:
                kt = self.ev(k, fr)
                parts.append(('kv', kt, self.ev(v, fr)))
        return T('map', tuple(parts))

    def comp(self, n, fr, build):
        env0 = fr.env
        fr.env = dict(env0)
        ng, nl = len(self.guards), len(self.loops)
        out = []
        self.frame = fr

        def clause(k, iters, cond):
            if k == len(n.generators):
                out.append(build(iters, cond))
                return
            g = n.generators[k]
            it = self.ev(g.iter, fr)
            row = self.literal(it)
            row = [(x, (), TRUE) for x in row] if row else self.segments(it, fr, n) or [None]
            for elt in row:
                g0, l0 = len(self.guards), len(self.loops)
                e, i, c = self.iterate(it, fr, n) if elt is None else elt
                self.assign(g.target, e, fr, n, silent=True)
                cc = mk_and(cond, c)
                self.loops.extend(i)
                if c is not TRUE:
                    self.guards.append((c, False))
                for f in g.ifs:
                    t = truth(self.ev(f, fr))
                    cc = mk_and(cc, t)
                    self.guards.append((t, False))
                clause(k + 1, iters + i, cc)
                del self.guards[g0:]
                del self.loops[l0:]
        clause(0, (), TRUE)
        del self.guards[ng:]
        del self.loops[nl:]
        # walrus leaks are ignored
        fr.env = env0
        return tuple(p for p in out if p is not None)

    def ev_ListComp(self, n, fr):
        return T('seq', self.comp(n, fr, lambda i, c: cond_part(('many', self.ev(n.elt, fr), i, c))))

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, n, fr):
        return T('setof', self.comp(n, fr, lambda i, c: cond_part(('many', self.ev(n.elt, fr), i, c))))

    def ev_DictComp(self, n, fr):
        return T('map', self.comp(n, fr, lambda i, c: cond_part(('manykv', self.ev(n.key, fr), self.ev(n.value, fr), i, c))))

    def ev_Lambda(self, n, fr):
        fi = FuncInfo(fr.fi.qual + '.<lambda>', n, fr.fi.mod, outer=fr.fi)
        return self.escape(self.make_closure(fi, fr), fr, n)

    def make_closure(self, fi, fr, bound=(), cls=None):
        """Closure term.  Alpha-normalised by the value it returns when that is small."""
        base = 'fn:' + str(len(own_params(fi.node)) - len(bound))
        lex = None
        env = {}
        if fr is not None:
            lex = fr
            env = dict(fr.env)
        t = T('closure', fi.qual, (id(fi.node),) + tuple(bound), env_key(fi, env))
        self.closures[t] = (fi, lex, env, tuple(bound), cls)
        return t

    def escape(self, t, fr, node):
        """A closure used as a value.

        Its effects are recorded once, under a deferred context, and it is named by
        what it returns (alpha-normalised), so that a lambda, a local def and an
        extracted function with the same body are the same value.
        """
        if t not in self.closures:
            return t
        if t in self.escaped:
            return self.escaped[t]
        fi, lex, env, bound, cls = self.closures[t]
        depth = sum(1 for c in self.ctx if c[0] == 'deferred')
        nd = fi.node
        a = nd.args
        ps = own_params(nd)[len(bound):]
        self.escaped[t] = T('selfref', depth)
        ndef = {}
        if isinstance(nd, ast.Lambda) and a.defaults:
            for x, df in zip((a.posonlyargs + a.args)[-len(a.defaults):], a.defaults):
                ndef[x.arg] = self.ev(df, fr)
        actual = tuple((k, ndef.get(k) or T('lparam', depth, i)) for i, k in enumerate(ps))
        if a.vararg:
            actual += (('*', T('lparam', depth, '*')),)
        if a.kwarg:
            actual += (('**', T('lparam', depth, '**')),)
        c0, l0, p0 = self.ctx, self.loops, self.pend
        self.ctx = self.ctx + [('deferred', depth)]
        r = self.invoke_closure(t, actual, fr, node)
        self.ctx, self.loops, self.pend = c0, l0, p0
        lam = T('lam', len(ps) - len(ndef), r)
        self.escaped[t] = lam
        self.closures.setdefault(lam, self.closures[t])
        return lam

    def closure_ret(self, t, n=None):
        return None

    def ev_IfExp(self, n, fr):
        c = truth(self.ev(n.test, fr))
        if c is TRUE:
            return self.ev(n.body, fr)
        if c is FALSE:
            return self.ev(n.orelse, fr)
        self.guards.append((c, False))
        a = self.ev(n.body, fr)
        self.guards[-1] = (mk_not(c), False)
        b = self.ev(n.orelse, fr)
        self.guards.pop()
        return mk_phi(c, a, b)

    def ev_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        vals = []
        ng = len(self.guards)
        for v in n.values:
            t = self.ev(v, fr)
            vals.append(t)
            tr = truth(t)
            self.guards.append((tr if isand else mk_not(tr), False))
        del self.guards[ng:]
        if all(is_bool(v) for v in vals):
            return (mk_and if isand else mk_or)(*vals)
        acc = vals[-1]
        for v in reversed(vals[:-1]):
            acc = mk_phi(truth(v), acc, v) if isand else mk_phi(truth(v), v, acc)
        return acc

    def ev_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return mk_not(truth(v))
        if isinstance(n.op, ast.USub):
            if is_const(v) and isinstance(cval(v), (int, float)):
                return const(-cval(v))
            return T('neg', v)
        return T('unary', type(n.op).__name__, v)

    def ev_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        op = BIN[type(n.op)]
        return self.binop(op, a, b)

    def binop(self, op, a, b):
        if op == '%' and is_const(a) and isinstance(cval(a), str):
            r = pct_format(cval(a), b)
            if r is not None:
                return r
        if op == '*' and a.op == 'seq' and is_const(b) and isinstance(cval(b), int) and 1 < cval(b) < 9 and all(p[0] == 'item' for p in a.a[0]):
            return T('seq', a.a[0] * cval(b))
        if op == '*' and a.op == 'seq' and len(a.a[0]) == 1 and a.a[0][0][0] == 'item' and is_const(a.a[0][0][1]) and b.op == 'call' and callee_is(b, 'builtins.len') and len(b.a[1]) == 1 or \
                op == '*' and a.op == 'tup' and len(a.a) == 1 and is_const(a.a[0]) and b.op == 'call' and callee_is(b, 'builtins.len') and len(b.a[1]) == 1:
            if a.op == 'tup':
                a = T('seq', (('item', a.a[0]),))
            e, i, c = self.iterate(b.a[1][0][1], self.frame, None)
            return T('seq', (('many', a.a[0][0][1], i, c),))
        if op == '*' and a.op == 'tup' and is_const(b) and isinstance(cval(b), int) and 1 < cval(b) < 9:
            return T('tup', *(a.a * cval(b)))
        if op == '+':
            if a.op == 'seq' and b.op == 'seq':
                return T('seq', a.a[0] + b.a[0])
            if a.op == 'tup' and b.op == 'tup':
                return T('tup', *(a.a + b.a))
            if a.op in ('seq', 'carried', 'phi') and b.op == 'seq':
                return T('seq', tuple(self.spread(a)) + b.a[0])
            if a.op == 'seq' and b.op != 'tup' and not is_const(b):
                return T('seq', a.a[0] + tuple(self.spread(b)))
            if is_strlike(a) or is_strlike(b):
                return mk_concat([a, b])
            if is_const(a) and is_const(b):
                try:
                    return const(cval(a) + cval(b))
                except Exception:
                    pass
        return T('bin', op, a, b)

    def ev_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, fr)
            out.append(compare(op, left, right))
            left = right
        return mk_and(*out) if len(out) > 1 else out[0]

    def ev_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign(n.target, v, fr, n)
        return v

    def ev_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                t = self.ev(v.value, fr)
                if v.format_spec is not None:
                    t = T('fmt', t, self.ev(v.format_spec, fr))
                if v.conversion == 114:
                    t = T('call', glob('builtins.repr'), ((0, t),))
                parts.append(t)
        return mk_concat(parts)

    def ev_Yield(self, n, fr):
        v = NONE if n.value is None else self.ev(n.value, fr)
        self.eff('yield', v, n, fr)
        fr.yields.append((self.rel_guard(fr, True), tuple(self.loops[fr.lbase:]), v, False))
        return T('sent')

    def ev_YieldFrom(self, n, fr):
        v = self.ev(n.value, fr)
        self.eff('yield', T('star', v), n, fr)
        fr.yields.append((self.rel_guard(fr, True), tuple(self.loops[fr.lbase:]), v, True))
        return T('sent')

    def ev_Await(self, n, fr):
        return self.ev(n.value, fr)

    # -- calls
    def ev_Call(self, n, fr):
        if isinstance(n.func, ast.Name):
            f = self.ev_Name(n.func, fr, call=True)
        elif isinstance(n.func, ast.Attribute):
            f = self.ev_Attribute(n.func, fr, call=True)
        else:
            f = self.ev(n.func, fr)
        actual = []
        pos = 0
        raw = self.inline_target(f, fr)
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                ps = self.spread(v)
                if all(p[0] == 'item' for p in ps):
                    for p in ps:
                        actual.append((pos, p[1]))
                        pos += 1
                else:
                    while ps and ps[0][0] == 'item':
                        actual.append((pos, ps[0][1]))
                        pos += 1
                        ps, v = ps[1:], None
                    if v is None:
                        v = ps[0][1] if len(ps) == 1 and ps[0][0] == 'splat' else T('seq', tuple(ps))
                    actual.append(('*', v))
                    pos = pos + 1000
            else:
                actual.append((pos, self.ev_Name(a, fr, call=True) if raw and isinstance(a, ast.Name) else self.ev(a, fr)))
                pos += 1
        for k in n.keywords:
            v = self.ev_Name(k.value, fr, call=True) if raw and isinstance(k.value, ast.Name) else self.ev(k.value, fr)
            if k.arg is None:
                if v.op == 'map' and all(p[0] == 'kv' and is_const(p[1]) for p in v.a[0]):
                    actual.extend((cval(p[1]), p[2]) for p in v.a[0])
                else:
                    actual.append(('**', v))
            else:
                actual.append((k.arg, v))
        r = self.apply(f, tuple(actual), fr, n, n.func)
        if raw and self.wb:
            fi = self.target_of(f, fr)
            if fi is not None:
                ps = own_params(fi.node)
                off = len(self.closures[f][3]) if f in self.closures else 1 if fi.is_classmethod or (f.op == 'attr' and not fi.is_static) else 0
                for i, a in enumerate(n.args):
                    if isinstance(a, ast.Starred):
                        break
                    if i + off < len(ps):
                        self.write_back(a, ps[i + off], fr)
                for k in n.keywords:
                    self.write_back(k.value, k.arg, fr)
            self.wb = None
        return r

    def write_back(self, a, pname, fr):
        if isinstance(a, ast.Name) and pname in self.wb:
            f = fr
            while f is not None:
                if a.id in f.env:
                    f.env[a.id] = self.wb[pname]
                    return
                f = f.lexical

    def target_of(self, f, fr):
        if f in self.closures:
            return self.closures[f][0]
        if f.op == 'global':
            return self.p.lookup(f.a[0])[1]
        if f.op == 'attr' and fr.cls is not None:
            return self.p.method(fr.cls, f.a[1])
        return None

    def inline_target(self, f, fr):
        """Whether calling f is followed into its body (so a local function may be passed by name)."""
        if f.op == 'closure':
            return f in self.closures
        if f.op == 'global' and f.a[0].startswith(PKG):
            r = self.p.lookup(f.a[0])
            return r[0] == 'func' and self.should_inline(r[1])
        if f.op == 'attr' and f.a[0] in (param('self'), param('cls')) and fr.cls is not None:
            m = self.p.method(fr.cls, f.a[1])
            return m is not None and not m.is_property and self.should_inline(m)
        return False

    def apply(self, f, actual, fr, node, fnode=None):
        p = self.p
        if f.op in ('closure', 'lam'):
            if f in self.closures:
                return self.invoke_closure(f, actual, fr, node)
        if f.op == 'partial':
            base, pre = f.a
            npos = sum(1 for k, _ in pre if isinstance(k, int))
            act = tuple(pre) + tuple(((k + npos) if isinstance(k, int) else k, v) for k, v in actual)
            return self.apply(base, act, fr, node, None)
        if f.op == 'decorated' and f.a[1] in self.closures:
            return self.invoke_closure(f.a[1], actual, fr, node)
        if f.op == 'phi' and known_callables(f):
            self.guards.append((f.a[0], False))
            a = self.apply(f.a[1], actual, fr, node)
            self.guards[-1] = (mk_not(f.a[0]), False)
            b = self.apply(f.a[2], actual, fr, node)
            self.guards.pop()
            return mk_phi(f.a[0], a, b)
        if f.op == 'global':
            g = f.a[0]
            if g.startswith(PKG):
                r = p.lookup(g)
                if r[0] == 'func':
                    fi = r[1]
                    act = self.bind_args(fi, actual, skip=1 if fi.is_classmethod else 0)
                    if self.should_inline(fi):
                        if fi.is_classmethod:
                            act = (('cls', glob(g.rsplit('.', 1)[0])),) + act
                        v = self.invoke(fi, act, fr, node, cls=fi.cls)
                        if v is not None:
                            return v
                    return self.emit_call(f, act, fr, node)
                if r[0] == 'class':
                    act = self.bind_ctor(r[1], actual)
                    return self.emit_call(f, act, fr, node)
                fl = p.record(g) if r[0] == 'assign' else None
                if fl:
                    act = tuple((fl[k] if isinstance(k, int) and k < len(fl) else k, v) for k, v in actual)
                    return self.emit_call(f, act, fr, node)
            if g.endswith('.get') and len(actual) in (1, 2) and all(isinstance(k, int) for k, _ in actual) and p.lookup(g[:-4])[0] in ('assign', 'classattr'):
                k0, d0 = actual[0][1], glob(g[:-4])
                return mk_phi(mk_in(k0, d0), self.sub(d0, k0), actual[1][1] if len(actual) == 2 else NONE)
            v = self.builtin(g, actual, fr, node)
            if v is not None:
                return v
            return self.emit_call(f, actual, fr, node)
        if f.op == 'attr':
            b, m = f.a
            if b is param('self') and fr.cls is not None or (b is param('cls') and fr.cls is not None):
                mth = p.method(fr.cls, m)
                if mth is not None and not mth.is_property:
                    sk = 0 if mth.is_static else 1
                    act = self.bind_args(mth, actual, skip=sk)
                    if self.should_inline(mth) and not self.overridden(fr.cls, m):
                        if sk:
                            act = ((own_params(mth.node)[0], b),) + act
                        v = self.invoke(mth, act, fr, node, cls=fr.cls)
                        if v is not None:
                            return v
                    return self.emit_call(f, act, fr, node)
            if m == 'get' and len(actual) in (1, 2) and all(isinstance(k, int) for k, _ in actual):
                k0 = actual[0][1]
                return mk_phi(mk_in(k0, b), self.sub(b, k0), actual[1][1] if len(actual) == 2 else NONE)
            if m in MUT_ANY and fnode is not None and isinstance(fnode, ast.Attribute):
                self.emit_call(f, actual, fr, node)
                self.mutate(fnode.value, b, m, actual, fr)
                return T('call', f, actual)
            if m == 'format' and is_const(b) and isinstance(cval(b), str):
                r = str_format(cval(b), actual)
                if r is not None:
                    return r
            if m == 'join' and is_const(b):
                return self.emit_call(f, actual, fr, node)
            if m == 'copy' and not actual and b.op in ('map', 'seq'):
                return b
            if m in ARRAY_METHODS and b.op in ('call', 'sub', 'bin', 'lt', 'eq', 'not', 'param', 'attr') and all(k == 0 or k in ('axis', 'keepdims', 'dtype', 'initial') for k, _ in actual):
                return self.apply(glob('numpy.' + m), ((0, b),) + tuple((1 if k == 0 else k, v) for k, v in actual), fr, node)
            if m == 'difference' and len(actual) == 1 and actual[0][0] == 0 and b.op == 'call' and callee_is(b, 'builtins.set', 'builtins.frozenset'):
                o = actual[0][1]
                if not (o.op == 'call' and callee_is(o, 'builtins.set', 'builtins.frozenset') or o.op == 'setof'):
                    o = self.apply(glob('builtins.set'), ((0, o),), fr, node)
                return self.binop('-', b, o)
        return self.emit_call(f, actual, fr, node)

    def overridden(self, cls, m):
        return False

    def emit_call(self, f, actual, fr, node):
        if f.op == 'global':
            g = ALIASES.get(f.a[0])
            if g is not None:
                f = glob(g)
            actual = library_args(f.a[0], actual)
        actual = norm_args(tuple((k, self.escape(v, fr, node) if v.op == 'closure' else sorted_items(v)) for k, v in actual))
        if f.op == 'global' and f.a[0] == 'os.path.join' and actual and actual[0][0] == 0 and actual[0][1].op == 'call' and callee_is(actual[0][1], 'os.path.join') \
                and all(isinstance(k, int) for k, _ in actual + actual[0][1].a[1]):
            # join(join(a, b), c) is join(a, b, c)
            actual = tuple(enumerate([v for _, v in actual[0][1].a[1]] + [v for _, v in actual[1:]]))
        t = T('call', f, actual)
        if f.op == 'global' and f.a[0] in TENSORS:
            r = tensor_form(f.a[0], dict(actual), t)
            if r is not t:
                return r
        self.eff('call', t, node, fr)
        return t

    def mutate(self, node, b, m, actual, fr):
        def fn(cur):
            a = [v for k, v in actual]
            if m == 'append' and len(a) == 1:
                ps = self.as_parts(cur, 'seq')
                return T('seq', tuple(ps) + (('item', a[0]),)) if ps is not None else T('mut', cur, m, tuple(a))
            if m == 'insert' and len(a) == 2 and is_const(a[0], 0):
                ps = self.as_parts(cur, 'seq')
                if ps is not None:
                    return T('seq', (('item', a[1]),) + tuple(ps))
            if m == 'extend' and len(a) == 1:
                ps = self.as_parts(cur, 'seq')
                return T('seq', tuple(ps) + tuple(self.spread(a[0]))) if ps is not None else T('mut', cur, m, tuple(a))
            if m == 'add' and len(a) == 1:
                ps = self.as_parts(cur, 'setof')
                return T('setof', tuple(ps) + (('item', a[0]),)) if ps is not None else T('mut', cur, m, tuple(a))
            if m == 'update' and len(a) == 1 and actual[0][0] == 0:
                kind = self.ckind(cur) or (a[0].op if a[0].op in ('map', 'setof') else None)
                ps = self.as_parts(cur, kind) if kind in ('map', 'setof') else None
                if ps is not None and kind == 'map':
                    return T('map', tuple(ps) + tuple(self.entries(a[0])))
                if ps is not None and kind == 'setof':
                    while callee_is(a[0], 'builtins.set', 'builtins.frozenset', 'builtins.list', 'builtins.sorted', 'builtins.tuple') and len(a[0].a[1]) == 1:
                        a = [a[0].a[1][0][1]]
                    return T('setof', tuple(ps) + tuple(a[0].a[0] if a[0].op == 'setof' else self.spread(a[0])))
            if m == 'update' and a and all(isinstance(k, str) and k not in ('*', '**') for k, _ in actual):
                ps = self.as_parts(cur, 'map')
                if ps is not None:
                    return T('map', tuple(ps) + tuple(('kv', const(k), v) for k, v in actual))
            if m == 'sort':
                if len(actual) == 1 and actual[0][0] == 'key' and first_of_pair(actual[0][1]) and unlist(cur).op == 'call' and callee_is(unlist(cur), '.items'):
                    return T('call', glob('builtins.sorted'), ((0, unlist(cur)),))
                return T('call', glob('builtins.sorted'), ((0, unlist(cur)),) + norm_args(actual))
            return T('mut', cur, m, tuple(a))
        if not isinstance(node, ast.Subscript):
            self.update_container(node, b, fn, fr)

    def bind_args(self, fi, actual, skip=0):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args][skip:]
        canon = dict(zip([x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs], self.canon_params(fi)))
        out = []
        star = False
        for k, v in actual:
            if isinstance(k, int):
                if k < len(names) and not star:
                    out.append((canon.get(names[k], names[k]), v))
                else:
                    out.append((k, v))
            elif k in ('*', '**'):
                star = star or k == '*'
                out.append((k, v))
            else:
                out.append((canon.get(k, k), v))
        if not any(k in ('*', '**') for k, _ in out):
            # an argument spelled out with its default value is the default
            allp = a.posonlyargs + a.args
            dv = list(zip(allp[len(allp) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults))
            dm = {canon.get(x.arg, x.arg): const(d.value) for x, d in dv if isinstance(d, ast.Constant)}
            DEFAULTS.update({(fi.qual, k): v for k, v in dm.items()})
            out = [(k, v) for k, v in out if not (k in dm and dm[k] is v)]
        return tuple(out)

    def bind_ctor(self, ci, actual):
        new = self.p.method(ci, '__init__') or None
        nw = self.p.method(ci, '__new__')
        flds = self.p.fields(ci)
        if nw is not None:
            return self.bind_args(nw, actual, skip=1)
        if new is not None:
            return self.bind_args(new, actual, skip=1)
        if flds:
            names = [f for f, _ in flds]
            return tuple((names[k] if isinstance(k, int) and k < len(names) else k, v) for k, v in actual)
        return actual

    def invoke_closure(self, t, actual, fr, node):
        fi, lex, env, bound, cls = self.closures[t]
        ps = own_params(fi.node)
        act = []
        off = len(bound)
        for i, b in enumerate(bound):
            act.append((ps[i], b))
        for k, v in actual:
            if isinstance(k, int):
                act.append((ps[k + off], v) if k + off < len(ps) else ('*', v))
            else:
                act.append((k, v))
        r = self.invoke(fi, tuple(act), fr, node, lexical=lex, env=env, cls=cls or (lex.cls if lex else None))
        return r if r is not None else T('call', t, tuple(actual))

    wb = None
    outer_mutated = ()
    pend = FALSE
    pend_base = (0, 0)
    last_raise = FALSE

    def invoke(self, fi, act, fr, node, lexical=None, env=None, cls=None):
        self.wb = None
        if fi.node in self.stack or len(self.stack) > self.MAXDEPTH:
            return None
        self.stack.append(fi.node)
        d = {}
        a = fi.node.args
        allp = a.posonlyargs + a.args
        given = {}
        extra, kw = [], []
        canon = {c: r for r, c in zip([x.arg for x in allp] + [x.arg for x in a.kwonlyargs], self.canon_params(fi))}
        names = {x.arg for x in allp} | {x.arg for x in a.kwonlyargs}
        unknown_star = False
        for k, v in act:
            k = canon.get(k, k)
            if k in names:
                given[k] = v
            elif isinstance(k, int):
                extra.append(('item', v))
            elif k == '*':
                extra.append(('splat', v))
                unknown_star = True
            elif k == '**':
                kw.append(('splat', v))
            else:
                kw.append(('kv', const(k), v))
        defaults = [None] * (len(allp) - len(a.defaults)) + list(a.defaults)
        # f(x, *rest): the parameters after x that have to be given are the elements of rest
        unpacked = None
        if unknown_star and len(extra) == 1 and not a.vararg:
            first = next((i for i, x in enumerate(allp) if x.arg not in given), 0)
            if not any(x.arg in given for x in allp[first:len(allp) - len(a.defaults)]):
                unpacked = (first, extra[0][1])
        if cls is None and fr is not None and fr.cls is not None and any(v is param('self') or v is param('cls') for _, v in act):
            cls = fr.cls
        nf = Frame(fi, cls, d, parent=fr, lexical=lexical)
        dfr = Frame(fi, cls, {}, parent=fr, lexical=lexical)
        for x, df in list(zip(allp, defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if x.arg in given:
                d[x.arg] = given[x.arg]
            elif df is not None and not kw and not (unknown_star):
                d[x.arg] = self.ev(df, dfr)
            elif df is None and unpacked is not None and x in allp and allp.index(x) >= unpacked[0]:
                d[x.arg] = self.sub(unpacked[1], const(allp.index(x) - unpacked[0]))
            elif df is None and not unknown_star and len(kw) == 1 and kw[0][0] == 'splat':
                d[x.arg] = self.sub(kw[0][1], const(x.arg))
            else:
                d[x.arg] = T('unbound', x.arg, *[y[-1] for y in extra + kw if y[0] == 'splat'])
        if a.vararg:
            d[a.vararg.arg] = T('seq', tuple(extra)) if not (len(extra) == 1 and extra[0][0] == 'splat') else extra[0][1]
        if a.kwarg:
            d[a.kwarg.arg] = T('map', tuple(kw))
        if env:
            # captured snapshot, live cells of the defining frame win when they exist
            for k, v in env.items():
                if k not in d and not isinstance(k, tuple):
                    if lexical is not None and k in lexical.env:
                        continue
                    d[k] = v
        # the callee sees the heap cells known at the call
        for k, v in fr.env.items():
            if isinstance(k, tuple):
                d.setdefault(k, v)
        ob, og = self.breaks, self.loop_gbase
        nf.inplace = mutated_params(fi.node)
        op, opb = self.pend, self.pend_base
        r = self.run_body(nf, fi.node)
        self.pend, self.pend_base = op, opb
        self.breaks, self.loop_gbase = ob, og
        if self.last_raise is not FALSE and not nf.is_gen:
            if r.op == 'phi' and self.last_raise.op != 'any':
                nr = mk_not(self.last_raise)
                for x in (nr.a if nr.op == 'and' else (nr,)):
                    r = restrict(r, *((x.a[0], False) if x.op == 'not' else (x, True)))
                r = prune(r, nr)
            c = mk_and(*[g for g, _ in self.guards[self.pend_base[0]:]], self.last_raise)
            lo = tuple(self.loops[self.pend_base[1]:])
            self.pend = mk_or(self.pend, mk_any(c, lo) if lo else c)
        # heap writes propagate to the caller
        out = self.cells(nf)
        for g, lo, h in reversed(nf.heaps):
            if h or out:
                base = {k: v for k, v in fr.env.items() if isinstance(k, tuple)}
                out = self.merge(mk_any(g, lo) if lo else g, {**base, **h}, {**base, **out})
        self.wb = {k[1]: out.pop(k) for k in list(out) if k[0] == '%'}
        fr.env.update(out)
        self.stack.pop()
        return r

    def builtin(self, g, actual, fr, node):
        if g == 'itertools.chain' and len(actual) == 1 and actual[0][0] == '*':
            g, actual = 'itertools.chain.from_iterable', ((0, actual[0][1]),)
        if not all(isinstance(k, int) for k, _ in actual) and g not in ('functools.partial', 'builtins.sorted', 'builtins.dict'):
            return None
        if g == 'builtins.type' and len(actual) == 1:
            return attr(actual[0][1], '__class__')
        if g in ('builtins.sorted', 'builtins.set', 'builtins.frozenset', 'builtins.len', 'builtins.list', 'builtins.tuple') and actual and actual[0][0] == 0:
            v = actual[0][1]
            if v.op == 'call' and v.a[0].op == 'attr' and v.a[0].a[1] == 'keys' and not v.a[1]:
                actual = ((0, v.a[0].a[0]),) + tuple(actual[1:])
                if g == 'builtins.sorted':
                    return self.emit_call(glob(g), actual, fr, node)
        if g == 'builtins.sorted' and len(actual) == 2 and actual[1][0] == 'key' and actual[0][1].op == 'call' and actual[0][1].a[0].op == 'attr' \
                and actual[0][1].a[0].a[1] == 'items' and not actual[0][1].a[1] and first_of_pair(actual[1][1]):
            # the keys of a mapping are distinct
            return self.emit_call(glob(g), actual[:1], fr, node)
        vals = [v for _, v in actual]
        if g in OPERATORS and len(vals) == len(actual) == 2:
            return self.binop(OPERATORS[g], *vals)
        if g == 'numpy.transpose' and len(vals) == 1:
            return attr(vals[0], 'T')
        if g == 'functools.partial' and vals:
            return T('partial', vals[0], norm_args(tuple(((k - 1) if isinstance(k, int) else k, v) for k, v in actual[1:])))
        if g in ('builtins.list', 'builtins.tuple'):
            if not vals:
                return T('seq', ()) if g == 'builtins.list' else T('tup')
            if len(vals) == 1 and g == 'builtins.tuple' and vals[0].op == 'seq' and all(p[0] == 'item' for p in vals[0].a[0]):
                return T('tup', *[p[1] for p in vals[0].a[0]])
            if len(vals) == 1 and g == 'builtins.list' and vals[0].op == 'tup':
                return T('seq', tuple(('item', x) for x in vals[0].a))
            if len(vals) == 1 and vals[0].op in ('seq', 'tup'):
                return vals[0]
            if len(vals) == 1 and vals[0].op == 'call' and callee_is(vals[0], 'builtins.map') and len(vals[0].a[1]) == 2:
                row = self.literal(vals[0].a[1][1][1])
                if row is not None:
                    xs = [self.apply(vals[0].a[1][0][1], ((0, x),), fr, node) for x in row]
                    return T('tup', *xs) if g == 'builtins.tuple' else T('seq', tuple(('item', x) for x in xs))
            if len(vals) == 1 and vals[0].op == 'call' and callee_is(vals[0], 'builtins.map'):
                e, i, c = self.iterate(vals[0], fr, node)
                return T('seq', (('many', e, i, c),))
            if len(vals) == 1:
                e, i, c = self.iterate(vals[0], fr, node)
                if len(i) == 1 and i[0] is vals[0]:
                    return self.emit_call(glob(g), tuple(actual), fr, node)
                return T('seq', (('many', e, i, c),))
        if g == 'builtins.set' or g == 'builtins.frozenset':
            if not vals:
                return T('setof', ())
            if len(vals) == 1 and vals[0].op in ('seq', 'setof'):
                return T('setof', vals[0].a[0])
            if vals[0].op == 'tup':
                return T('setof', tuple(('item', x) for x in vals[0].a))
        if g == 'builtins.len' and len(vals) == 1 and is_const(vals[0]) and isinstance(cval(vals[0]), (str, bytes)):
            return const(len(cval(vals[0])))
        if g == 'builtins.len' and len(vals) == 1 and vals[0].op == 'tup':
            return const(len(vals[0].a))
        if g == 'builtins.len' and len(vals) == 1 and vals[0].op == 'seq' and len(vals[0].a[0]) == 1:
            p = vals[0].a[0][0]
            if p[0] == 'many' and len(p[2]) == 1 and p[3] is TRUE and p[2][0].op not in ('until', 'while', 'zip', 'its'):
                return self.emit_call(glob(g), ((0, p[2][0]),), fr, node)
        if g in ('builtins.max', 'builtins.min') and len(vals) > 1 and len(actual) == len(vals):
            return T('call', glob(g), tuple(enumerate(sorted(vals, key=lambda t: t.n))))
        if g in ('builtins.set', 'builtins.frozenset', 'builtins.len') and len(actual) == 1:
            return self.emit_call(glob(g), tuple(actual), fr, node)
        if g == 'builtins.dict':
            if not actual:
                return T('map', ())
            if all(isinstance(k, str) and k not in ('*', '**') for k, _ in actual):
                return T('map', tuple(('kv', const(k), v) for k, v in actual))
            if len(actual) == 1 and vals[0].op == 'map':
                return vals[0]
            if len(actual) == 1 and isinstance(actual[0][0], int):
                v = vals[0]
                if (v.op == 'call' and callee_is(v, 'builtins.zip')) or v.op == 'seq':
                    e, i, c = self.iterate(v, fr, node)
                    if e.op == 'tup' and len(e.a) == 2:
                        return T('map', (('manykv', e.a[0], e.a[1], i, c),))
                return T('map', (('splat', v),)) if v.op not in ('call',) else None
        if g == 'builtins.dict.fromkeys' and len(vals) == len(actual) == 2 and all(x.op in ('const', 'global') or x.op == 'tup' and all(is_const(y) for y in x.a) for x in vals[1:]):
            e, i, c = self.iterate(vals[0], fr, node)
            return T('map', (('manykv', e, vals[1] if len(vals) == 2 else NONE, i, c),))
        if g in ('builtins.any', 'builtins.all') and len(vals) == 1:
            v = vals[0]
            if v.op == 'tup':
                return (mk_or if g.endswith('any') else mk_and)(*[truth(x) for x in v.a])
            if v.op == 'seq' and all(p[0] in ('item', 'many') for p in v.a[0]):
                out = []
                for p in v.a[0]:
                    if p[0] == 'item':
                        out.append(truth(p[1]) if g.endswith('any') else mk_not(truth(p[1])))
                    else:
                        tt = truth(p[1])
                        if g.endswith('all'):
                            tt = mk_not(tt)
                        out.append(mk_any(mk_and(p[3], tt), p[2]))
                r = mk_or(*out)
                return r if g.endswith('any') else mk_not(r)
            e, i, c = self.iterate(v, fr, node)
            tt = truth(e)
            r = mk_any(mk_and(c, tt if g.endswith('any') else mk_not(tt)), i)
            return r if g.endswith('any') else mk_not(r)
        if g == 'builtins.str' and len(vals) == 1 and (vals[0].op == 'concat' or (is_const(vals[0]) and isinstance(cval(vals[0]), str))):
            return vals[0]
        if g == 'builtins.getattr' and len(vals) == 2 and vals[1].op == 'phi' and all(is_const(x) for x in outcomes(vals[1])):
            def named(n):
                return self.getattr(vals[0], cval(n)) if is_const(n) else mk_phi(n.a[0], named(n.a[1]), named(n.a[2]))
            return named(vals[1])
        if g == 'builtins.getattr' and len(vals) == 2 and is_const(vals[1]):
            return self.getattr(vals[0], cval(vals[1]))
        if g == 'builtins.getattr' and len(vals) == 3 and is_const(vals[1]) and isinstance(cval(vals[1]), str):
            return T('attr', vals[0], cval(vals[1]), vals[2])
        if g == 'builtins.setattr' and len(vals) == 3 and is_const(vals[1]):
            self.eff('setattr', T('setattr', vals[0], cval(vals[1]), vals[2]), node, fr)
            fr.env[('@', vals[0], cval(vals[1]))] = vals[2]
            return NONE
        if g in ('builtins.isinstance', 'builtins.issubclass') and len(vals) == 2:
            if vals[1].op == 'tup':
                return mk_or(*[self.builtin(g, ((0, vals[0]), (1, c)), fr, node) for c in vals[1].a])
            if vals[1].op == 'call' and callee_is(vals[1], 'builtins.type') and len(vals[1].a[1]) == 1 and vals[1].a[1][0][1] is NONE:
                return mk_is(vals[0], NONE)
            return T('call', glob(g), tuple(actual)) if vals[1].op != 'tup' else mk_or(*[T('call', glob(g), ((0, vals[0]), (1, c))) for c in vals[1].a])
        if g == 'builtins.sum' and len(vals) == 1:
            e, i, c = self.iterate(vals[0], fr, node)
            return T('sum', const(0), e, i, c)
        if g == 'builtins.sorted' and vals and actual[0][0] == 0 and unlist(vals[0]) is not vals[0]:
            return self.emit_call(glob(g), ((0, unlist(vals[0])),) + tuple(actual[1:]), fr, node)
        if g == 'functools.reduce' and len(vals) in (2, 3):
            rest = vals[1] if len(vals) == 3 else self.slice(unlist(vals[1]), const(1), NONE)
            init = vals[2] if len(vals) == 3 else self.sub(unlist(vals[1]), const(0))
            e, i, c = self.iterate(rest, fr, node)
            if c is TRUE:
                depth = len(self.loops)
                car = T('carried', init, i, 0, depth)
                self.loops.extend(i)
                r = self.apply(vals[0], ((0, car), (1, e)), fr, node)
                del self.loops[depth:]
                if r is not car:
                    self.s.loopvars.setdefault(car, []).append((r, fr.fi, node, TRUE))
                return self.close_loop(car, r, init, i, TRUE)
        if g == 'builtins.next' and len(vals) == 1 and vals[0].op == 'call' and callee_is(vals[0], 'builtins.iter') and len(vals[0].a[1]) == 1:
            x = unlist(vals[0].a[1][0][1])
            a = node.args[0] if isinstance(node, ast.Call) and len(node.args) == 1 else None
            if isinstance(a, ast.Name) and a.id in fr.env and fr.lbase == len(self.loops):
                fr.env[a.id] = T('call', glob('builtins.iter'), ((0, self.slice(x, const(1), NONE)),))
                return self.sub(x, const(0))
            if isinstance(a, ast.Call):
                return self.sub(x, const(0))
        if g == 'builtins.next' and len(vals) == 2 and vals[0].op == 'seq' and len(vals[0].a[0]) == 1 and vals[0].a[0][0][0] == 'many':
            _, e, i, c = vals[0].a[0][0]
            return mk_phi(mk_any(c, i), e, vals[1])
        if g == 'itertools.chain':
            parts = []
            for v in vals:
                parts.extend(self.spread(v))
            return T('seq', tuple(parts))
        if g == 'itertools.chain.from_iterable' and len(vals) == 1:
            e, i, c = self.iterate(vals[0], fr, node)
            e2, i2, c2 = self.iterate(e, fr, node)
            return T('seq', (('many', e2, i + i2, mk_and(c, c2)),))
        if g == 'copy.copy' and vals[0].op in ('seq', 'map'):
            return vals[0]
        return None


# ---------------------------------------------------------------------- utils
OPERATORS = {m + '.' + n: o for m in ('numpy', 'tensorflow', 'tensorflow.math') for n, o in (('add', '+'), ('subtract', '-'), ('multiply', '*'))}
OPERATORS.update({'operator.add': '+', 'operator.sub': '-', 'operator.mul': '*', 'operator.truediv': '/', 'operator.floordiv': '//', 'operator.mod': '%',
                  'numpy.logical_and': '&', 'numpy.logical_or': '|', 'numpy.bitwise_and': '&', 'numpy.bitwise_or': '|'})
ARRAY_METHODS = ('any', 'all', 'min', 'max', 'sum', 'mean')
BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}


def known_callables(f, depth=3):
    if f.op == 'phi':
        return depth > 0 and known_callables(f.a[1], depth - 1) and known_callables(f.a[2], depth - 1)
    return f.op in ('closure', 'partial', 'lam', 'global') or f.op == 'attr' and f.a[0].op in ('param', 'global')


def kind_returned(fn):
    def kind(e):
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return 'map'
        if isinstance(e, (ast.List, ast.ListComp)):
            return 'seq'
        if isinstance(e, (ast.Set, ast.SetComp)):
            return 'setof'
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            return {'dict': 'map', 'list': 'seq', 'sorted': 'seq', 'set': 'setof'}.get(e.func.id)
        return None
    nodes, todo = [], list(fn.body) if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)) else []
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return None
        nodes.append(n)
        todo.extend(ast.iter_child_nodes(n))
    out = set()
    for r in nodes:
        if isinstance(r, ast.Return):
            if isinstance(r.value, ast.Name):
                vs = [n.value for n in nodes if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == r.value.id for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))]
                out |= {kind(v) for v in vs} or {None}
            else:
                out.add(kind(r.value) if r.value is not None else None)
    return out.pop() if len(out) == 1 else None


def prune(r, known, depth=8):
    """The alternatives of a value that are possible when `known` holds."""
    if r.op != 'phi' or depth == 0 or known.op == 'const':
        return r
    def given(c, k):
        for x in (c.a if c.op == 'and' else (c,)):
            at, val = (x.a[0], False) if x.op == 'not' else (x, True)
            k = (TRUE if val else FALSE) if k is at else (FALSE if val else TRUE) if k.op == 'not' and k.a[0] is at else restrict(k, at, val)
        return k
    yes, no = given(r.a[0], known), given(mk_not(r.a[0]), known)
    if no is FALSE:
        return prune(r.a[1], yes, depth - 1)
    if yes is FALSE:
        return prune(r.a[2], no, depth - 1)
    a, b = prune(r.a[1], yes, depth - 1), prune(r.a[2], no, depth - 1)
    return r if a is r.a[1] and b is r.a[2] else mk_phi(r.a[0], a, b)


def first_of_pair(f):
    return f.op == 'lam' and f.a[0] == 1 and f.a[1] is T('sub', T('lparam', 0, 0), const(0)) or \
        f.op == 'call' and callee_is(f, 'operator.itemgetter') and tuple(f.a[1]) == ((0, const(0)),)


def has_tup(t):
    return t.op == 'tup' or t.op == 'phi' and (has_tup(t.a[1]) or has_tup(t.a[2]))


def leaves_loop(st, kinds=(ast.Break, ast.Continue)):
    """Does the body break out of, or skip the rest of, this loop?"""
    stack = list(st.body)
    while stack:
        n = stack.pop()
        if isinstance(n, kinds):
            return True
        if isinstance(n, (ast.For, ast.While)):
            stack.extend(n.orelse)
        elif not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(n))
    return False


def unlist(t):
    """[x for x in it] -> it, for iterables the display form was derived from."""
    if t.op == 'call' and callee_is(t, 'builtins.list', 'builtins.tuple') and len(t.a[1]) == 1:
        return t.a[1][0][1]
    if t.op == 'seq' and len(t.a[0]) == 1 and t.a[0][0][0] == 'many' and t.a[0][0][3] is TRUE and len(t.a[0][0][2]) == 1:
        e, d = t.a[0][0][1], t.a[0][0][2][0]
        x = T('elem', d)
        if e.op == 'tup' and len(e.a) == 2 and e.a[0] is x and e.a[1] is T('sub', d, x):
            return T('call', attr(d, 'items'), ())
        if e is x:
            return d
        if e is T('sub', d, x):
            return T('call', attr(d, 'values'), ())
    return t


_LIB = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'libsigs.json')))
LIBSIGS, ALIASES = _LIB['signatures'], _LIB['aliases']


def library_args(g, actual):
    """Arguments of a library call under the library's parameter names (the first stays positional),
    those that spell out a default left out."""
    s = LIBSIGS.get(g)
    if s is None or any(k in ('*', '**') for k, _ in actual):
        return actual
    names, dflt, var = s
    out = []
    for k, v in actual:
        n = k
        if isinstance(k, int):
            if k >= len(names):
                if not var:
                    return actual
            else:
                n = names[k]
        if n in dflt and is_const(v) and type(cval(v)) is type(dflt[n]) and cval(v) == dflt[n]:
            if isinstance(k, int) and var:
                return actual
            continue
        out.append((n, v))
    if var and any(isinstance(k, int) for k, _ in out):
        return actual
    return tuple((0 if names and n == names[0] else n, v) for n, v in out)


def norm_args(actual):
    pos = [(k, v) for k, v in actual if isinstance(k, int)]
    star = [(k, v) for k, v in actual if k in ('*', '**')]
    kw = sorted(((k, v) for k, v in actual if isinstance(k, str) and k not in ('*', '**')), key=lambda x: x[0])
    return tuple(pos + star + kw)


def flat(p):
    for x in p:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from flat(x)


def own_params(node):
    a = node.args
    return [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]


_mutp = {}


TENSORS = {'tensorflow.zeros_like', 'tensorflow.ones_like', 'tensorflow.zeros', 'tensorflow.ones', 'tensorflow.shape', 'tensorflow.size', 'tensorflow.rank'}


def tensor_form(g, a, t):
    """Constant-filled tensors in one form; the shape of a tensor of converted values is the shape of the values."""
    if g in ('tensorflow.shape', 'tensorflow.size', 'tensorflow.rank'):
        if set(a) != {0}:
            return t
        x = a[0]
        if x.op == 'phi':
            y, z = (tensor_form(g, {0: v}, T('call', t.a[0], ((0, v),))) for v in x.a[1:])
            return y if y is z else t
        if x.op == 'call' and callee_is(x, 'tensorflow.cast') and x.a[1] and x.a[1][0][0] == 0:
            return tensor_form(g, {0: x.a[1][0][1]}, T('call', t.a[0], ((0, x.a[1][0][1]),)))
        if g == 'tensorflow.size' and x.op == 'attr' and x.a[1] == 'values':
            # the values of a sparse tensor are a vector
            return T('sub', T('call', glob('tensorflow.shape'), ((0, x),)), const(0))
        return t
    if set(a) - {0, 'dtype'} or 0 not in a:
        return t
    like = g.endswith('_like')
    dims = tensor_form('tensorflow.shape', {0: a[0]}, T('call', glob('tensorflow.shape'), ((0, a[0]),))) if like else a[0]
    dtype = a.get('dtype', attr(a[0], 'dtype') if like else attr(glob('tensorflow'), 'float32'))
    filled = T('call', glob('tensorflow.fill'), ((0, dims), ('value', const(1 if 'ones' in g else 0))))
    return T('call', glob('tensorflow.cast'), ((0, filled), ('dtype', dtype)))


# tuples with named fields that library functions return
RESULT_FIELDS = {'tensorflow.unique_with_counts': ('y', 'idx', 'count'), 'tensorflow.unique': ('y', 'idx'), 'tensorflow.math.top_k': ('values', 'indices')}


def mutated_params(node, passed=True):
    """Parameters updated in place (or passed on) and never rebound."""
    r = _mutp.get((id(node), passed))
    if r is not None and r[0] is node:
        return r[1]
    if isinstance(node, ast.Lambda):
        out = ()
    else:
        ps = set(own_params(node))
        stored, mut = set(), set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stored.add(n.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT_ANY and isinstance(n.func.value, ast.Name):
                mut.add(n.func.value.id)
            elif stored_in(n):
                mut.add(stored_in(n))
            elif isinstance(n, ast.Call) and passed:
                mut.update(a.id for a in n.args if isinstance(a, ast.Name))
                mut.update(k.value.id for k in n.keywords if isinstance(k.value, ast.Name))
        out = tuple(sorted((mut & ps) - stored))
    _mutp[id(node), passed] = (node, out)
    return out


def stored_in(n):
    """The name of the container an item (or an item of an item) is stored in or deleted from."""
    if not (isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del))):
        return None
    b = n.value
    if isinstance(b, ast.Subscript) and isinstance(n.ctx, ast.Store):
        b = b.value
    return b.id if isinstance(b, ast.Name) else None


def names_of(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def captured_mutated(node):
    """Names of enclosing functions whose container a local function updates in place."""
    if isinstance(node, ast.Lambda):
        return []
    own = set(own_params(node)) | {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    free = {x for n in ast.walk(node) if isinstance(n, ast.Nonlocal) for x in n.names}
    out = []
    for n in ast.walk(node):
        x = None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT_ANY and isinstance(n.func.value, ast.Name):
            x = n.func.value.id
        elif stored_in(n):
            x = stored_in(n)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in free:
            x = n.id
        if x is not None and (x not in own or x in free) and x not in out:
            out.append(x)
    return out


def own_nodes(fn):
    """Nodes of a function body excluding nested functions."""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def assigned_in(loop):
    """Names (re)bound or container-mutated in a loop body, in order of first occurrence."""
    out = []

    def add(n):
        if n not in out:
            out.append(n)
    body = list(loop.body)
    tgt = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)} if isinstance(loop, ast.For) else set()
    if isinstance(loop, ast.While):
        body = [ast.Expr(loop.test)] + body
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                add(n.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT_ANY and isinstance(n.func.value, ast.Name):
                add(n.func.value.id)
            elif stored_in(n):
                add(stored_in(n))
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Subscript) and isinstance(n.target.value, ast.Name):
                add(n.target.value.id)
    return [x for x in out if x not in tgt]


def mutated_attrs(loop):
    """Attributes of local names whose container value the loop body updates in place."""
    out = []

    def add(n):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and (n.value.id, n.attr) not in out:
            out.append((n.value.id, n.attr))
    for st in loop.body:
        for n in ast.walk(st):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT_ANY:
                add(n.func.value)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                add(n.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Subscript):
                add(n.target.value)
    return out


def sorted_items(t):
    """[(k, d[k]) for k in sorted(d)] is sorted(d.items()) (keys are distinct)."""
    if t.op == 'seq' and len(t.a[0]) == 1 and t.a[0][0][0] == 'many' and len(t.a[0][0][2]) == 1 and t.a[0][0][3] is TRUE:
        e, (i,) = t.a[0][0][1:3]
        if callee_is(i, 'builtins.sorted') and len(i.a[1]) == 1 and e.op == 'tup' and len(e.a) == 2 and e.a[0] is T('elem', i) and e.a[1] is T('sub', i.a[1][0][1], e.a[0]):
            return T('call', i.a[0], ((0, T('call', attr(i.a[1][0][1], 'items'), ())),))
    return t


def empty_container(t):
    return t.op in ('seq', 'map', 'setof') and not t.a[0]


def env_key(fi, env):
    """Captured values that the closure body mentions (so distinct captures give distinct terms)."""
    used = {n.id for n in ast.walk(fi.node) if isinstance(n, ast.Name)}
    return tuple((k, env[k]) for k in sorted(x for x in env if isinstance(x, str)) if k in used)


def is_strlike(t):
    return t.op == 'concat' or (is_const(t) and isinstance(cval(t), str)) or \
        (t.op == 'call' and t.a[0].op == 'global' and t.a[0].a[0] in ('builtins.str', 'builtins.repr'))


def mk_concat(parts):
    out = []
    for p in parts:
        if p.op == 'concat':
            out.extend(p.a)
        elif p.op == 'call' and p.a[0].op == 'global' and p.a[0].a[0] == 'builtins.str' and len(p.a[1]) == 1:
            out.append(p.a[1][0][1])
        else:
            out.append(p)
    res = []
    for p in out:
        if is_const(p) and isinstance(cval(p), (str, int)) and not isinstance(cval(p), bool):
            s = str(cval(p))
            if not s:
                continue
            if res and is_const(res[-1]) and isinstance(cval(res[-1]), str):
                res[-1] = const(cval(res[-1]) + s)
                continue
            res.append(const(s))
        else:
            res.append(p)
    if not res:
        return const('')
    if len(res) == 1 and is_const(res[0]):
        return res[0]
    if len(res) == 1 and res[0].op != 'fmt':
        return T('call', glob('builtins.str'), ((0, res[0]),))
    return T('concat', *res)


def pct_format(s, b):
    specs = re.findall(r'%(?:%|[-+ #0]*\d*(?:\.\d+)?[sdrifgx])', s)
    n = sum(1 for x in specs if x != '%%')
    if '%(' in s:
        return None
    vals = list(b.a) if b.op == 'tup' else [b]
    if len(vals) != n:
        return None
    parts = []
    pos = 0
    vi = 0
    for m in re.finditer(r'%(?:%|[-+ #0]*\d*(?:\.\d+)?[sdrifgx])', s):
        parts.append(const(s[pos:m.start()]))
        pos = m.end()
        if m.group() == '%%':
            parts.append(const('%'))
        else:
            v = vals[vi]
            vi += 1
            if m.group() == '%r':
                v = T('call', glob('builtins.repr'), ((0, v),))
            elif m.group() not in ('%s', '%d'):
                v = T('fmt', v, const(m.group()))
            parts.append(v)
    parts.append(const(s[pos:]))
    return mk_concat(parts)


def str_format(s, actual):
    pos = {k: v for k, v in actual if isinstance(k, int)}
    kw = {k: v for k, v in actual if isinstance(k, str) and k not in ('*', '**')}
    if any(k in ('*', '**') for k, _ in actual):
        return None
    parts = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                parts.append(const(lit))
            if field is None:
                continue
            if field == '':
                v = pos.get(auto)
                auto += 1
            elif field.isdigit():
                v = pos.get(int(field))
            else:
                v = kw.get(field)
            if v is None:
                return None
            if spec:
                v = T('fmt', v, const(spec))
            if conv == 'r':
                v = T('call', glob('builtins.repr'), ((0, v),))
            parts.append(v)
    except ValueError:
        return None
    return mk_concat(parts)


def compare(op, a, b):
    if isinstance(op, ast.Eq):
        return mk_eq(a, b)
    if isinstance(op, ast.NotEq):
        return mk_not(mk_eq(a, b))
    if isinstance(op, ast.Lt):
        return mk_lt(a, b)
    if isinstance(op, ast.Gt):
        return mk_lt(b, a)
    if isinstance(op, (ast.LtE, ast.GtE)):
        if isinstance(op, ast.GtE):
            a, b = b, a
        if setlike(a) or setlike(b):
            return mk_not(left_over(a, b))
        return mk_le(a, b)
    if isinstance(op, ast.Is):
        return mk_is(a, b)
    if isinstance(op, ast.IsNot):
        return mk_not(mk_is(a, b))
    if isinstance(op, ast.In):
        return mk_in(a, b)
    if isinstance(op, ast.NotIn):
        return mk_not(mk_in(a, b))
    return T('cmp', type(op).__name__, a, b)


def dispatch_table(b):
    return b.op == 'map' and 1 < len(b.a[0]) <= 8 and all(p[0] == 'kv' and p[1].op in ('const', 'global') for p in b.a[0])


def mk_in(a, b):
    if b.op == 'tup':
        return mk_or(*[mk_eq(a, x) for x in b.a])
    if dispatch_table(b):
        return mk_or(*[mk_eq(a, p[1]) for p in b.a[0]])
    if b.op in ('seq', 'setof') and all(p[0] == 'item' for p in b.a[0]):
        return mk_or(*[mk_eq(a, p[1]) for p in b.a[0]])
    if b.op in ('seq', 'setof') and len(b.a[0]) == 1 and b.a[0][0][0] == 'many':
        # one of the things made of the elements of a collection
        _, e, its, g = b.a[0][0]
        own = set(walk(a))
        if len(its) == 1 and not any(T('elem', i) in own or i.op in ('while', 'until', 'its') for i in its):
            return mk_any(mk_and(mk_eq(a, e), g), its)
    if b.op == 'call' and b.a[0].op == 'attr' and b.a[0].a[1] == 'keys' and not b.a[1]:
        return mk_in(a, b.a[0].a[0])
    return T('in', a, b)
