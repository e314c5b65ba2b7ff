#!/usr/bin/env python3
"""Sensitivity measure: mutate one construct of a function and see what the comparison says.

mutate.py [pattern] [max per function] -- prints, per mutation operator, how many mutants
were decisive / undecided / unnoticed, and lists the unnoticed ones.
"""
import ast
import copy
import collections
import fnmatch
import os
import random
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa.conform import Conformance  # noqa: E402
from sa.project import Project  # noqa: E402

FLIP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
ARITH = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def mutants(fn):
    """Yield (operator, description, mutated copy of fn)."""
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        def mk(edit):
            c = copy.deepcopy(fn)
            m = list(ast.walk(c))[i]
            r = edit(m, c)
            return c if r is not False else None
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in FLIP:
            yield 'compare', ast.unparse(n), mk(lambda m, c: setattr(m, 'ops', [FLIP[type(m.ops[0])]()]))
        if isinstance(n, ast.BoolOp):
            yield 'and/or', ast.unparse(n), mk(lambda m, c: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for k in range(len(n.values)):
                if len(n.values) > 1:
                    yield 'drop-test', ast.unparse(n) + ' #%d' % k, mk(lambda m, c: m.values.pop(k) and None if len(m.values) > 2 else replace(c, m, m.values[1 - k]))
        if isinstance(n, ast.BinOp) and type(n.op) in ARITH:
            yield 'arith', ast.unparse(n), mk(lambda m, c: setattr(m, 'op', ARITH[type(m.op)]()))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield 'not', ast.unparse(n), mk(lambda m, c: replace(c, m, m.operand))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield 'bool', str(n.value), mk(lambda m, c: setattr(m, 'value', not m.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            yield 'int', str(n.value), mk(lambda m, c: setattr(m, 'value', m.value + 1))
        if isinstance(n, ast.Call):
            pos = [a for a in n.args if not isinstance(a, ast.Starred)]
            if len(pos) >= 2 and len(pos) == len(n.args) and ast.dump(n.args[0]) != ast.dump(n.args[1]):
                yield 'swap-args', ast.unparse(n), mk(lambda m, c: m.args.insert(0, m.args.pop(1)))
            for k, kw in enumerate(n.keywords):
                if kw.arg:
                    yield 'drop-kw', ast.unparse(n) + ' ' + kw.arg, mk(lambda m, c: m.keywords.pop(k) and None)
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'set', 'list', 'tuple', 'reversed', 'frozenset'):
                yield 'unwrap', ast.unparse(n), mk(lambda m, c: replace(c, m, m.args[0]))
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            yield 'return-none', ast.unparse(n)[:80], mk(lambda m, c: setattr(m, 'value', ast.Constant(None)))
        if isinstance(n, ast.If):
            yield 'if-true', ast.unparse(n.test), mk(lambda m, c: setattr(m, 'test', ast.Constant(True)))
            yield 'if-false', ast.unparse(n.test), mk(lambda m, c: setattr(m, 'test', ast.Constant(False)))
        if isinstance(n, ast.IfExp):
            yield 'ifexp', ast.unparse(n), mk(lambda m, c: swapif(m))
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for k, g in enumerate(n.generators):
                if g.ifs:
                    yield 'drop-filter', ast.unparse(n), mk(lambda m, c: setattr(m.generators[k], 'ifs', []))
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if not isinstance(b, list):
                continue
            for k, st in enumerate(b):
                if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Pass, ast.Import, ast.ImportFrom, ast.Return)) or (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                    continue
                if isinstance(st, (ast.Assign, ast.AnnAssign)):
                    nm = {x.id for t in (st.targets if isinstance(st, ast.Assign) else [st.target]) for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                    earlier = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and (x.lineno, x.col_offset) < (st.lineno, st.col_offset)} | {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
                    if nm - earlier:
                        continue
                yield 'drop-stmt', ast.unparse(st).split('\n')[0][:110], mk(lambda m, c: dropst(m, field, k))
            for k in range(len(b) - 1):
                if all(isinstance(s, (ast.Expr, ast.Assign, ast.With, ast.If, ast.AugAssign)) for s in b[k:k + 2]) and not (isinstance(b[k], ast.Expr) and isinstance(b[k].value, ast.Constant)):
                    yield 'swap-stmts', ast.unparse(b[k]).split('\n')[0][:60] + ' <-> ' + ast.unparse(b[k + 1]).split('\n')[0][:60], mk(lambda m, c: swapst(m, field, k))
        if isinstance(n, ast.Try) and n.finalbody:
            yield 'no-finally', 'try', mk(lambda m, c: unfinally(c, m))
        if isinstance(n, ast.Continue):
            yield 'continue-break', 'continue', mk(lambda m, c: replace(c, m, ast.Break()))
        if isinstance(n, ast.Break):
            yield 'break-continue', 'break', mk(lambda m, c: replace(c, m, ast.Continue()))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr.startswith(('min', 'max', 'reduce_min', 'reduce_max')):
            yield 'minmax', ast.unparse(n), mk(lambda m, c: setattr(m, 'attr', m.attr.replace('min', '\0').replace('max', 'min').replace('\0', 'max')))


def swapif(m):
    m.body, m.orelse = m.orelse, m.body


def dropst(m, field, k):
    b = getattr(m, field)
    b.pop(k)
    if not b and field == 'body':
        b.append(ast.Pass())


def swapst(m, field, k):
    b = getattr(m, field)
    b[k], b[k + 1] = b[k + 1], b[k]


def unfinally(c, m):
    if m.handlers:
        m.body += m.finalbody
        m.finalbody = []
    else:
        for p in ast.walk(c):
            for f, v in ast.iter_fields(p):
                if isinstance(v, list) and m in v:
                    i = v.index(m)
                    v[i:i + 1] = m.body + m.finalbody
                    return


def replace(c, m, new):
    for p in ast.walk(c):
        for f, v in ast.iter_fields(p):
            if v is m:
                setattr(p, f, new)
                return
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if x is m:
                        v[i] = new
                        return


def source(fi, new):
    """Module text with the function replaced."""
    mod = copy.copy(fi.mod.tree)
    tree = ast.parse(fi.mod.src)
    for p in ast.walk(tree):
        for f, v in ast.iter_fields(p):
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.FunctionDef) and x.lineno == fi.node.lineno and x.name == fi.node.name:
                        v[i] = new
                        return ast.unparse(ast.fix_missing_locations(tree))
    return None


def main():
    pat = sys.argv[1] if len(sys.argv) > 1 else '*'
    per = int(sys.argv[2]) if len(sys.argv) > 2 else 8
    ref = Project(os.path.join(HERE, 'reference'))
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    stat = collections.defaultdict(collections.Counter)
    miss, und = [], []
    shape = collections.Counter()
    for fi in list(ref.functions()):
        q = fi.qual[len('tensorflow_transform.'):]
        if not fnmatch.fnmatch(q, pat):
            continue
        ms = [m for m in mutants(fi.node) if m[2] is not None]
        if len(ms) > per:
            ms = rnd.sample(ms, per)
        for op, desc, node in ms:
            src = source(fi, node)
            if src is None:
                continue
            try:
                cur = Project(os.path.join(HERE, 'reference'), {fi.mod.relpath: src})
            except SyntaxError:
                continue
            c = Conformance(ref, cur)
            n, fs, st = c.function(fi.qual)
            k = 'decisive' if any(f.dec for f in fs) else 'undecided' if fs else 'unnoticed'
            stat[op][k] += 1
            if k == 'decisive':
                kinds = {'direct' if f.diff.dec else 'promoted' for f in fs if f.dec}
                shape['+'.join(sorted(kinds)) + (' with undecided' if any(not f.dec for f in fs) else '')] += 1
            if k == 'unnoticed':
                miss.append((q, op, desc))
            elif k == 'undecided':
                und.append((q, op, desc, fs[0]))
    tot = collections.Counter()
    for op, c in sorted(stat.items()):
        print('%-14s decisive %4d undecided %4d unnoticed %4d' % (op, c['decisive'], c['undecided'], c['unnoticed']))
        tot.update(c)
    print('total', dict(tot))
    print('shape', dict(shape))
    if os.environ.get('SHOW', '1') == '1':
        for m in miss:
            print('UNNOTICED %s [%s] %s' % m)
    if os.environ.get('SHOWU'):
        for m in und:
            print('UND %s [%s] %s\n      %s' % m)


if __name__ == '__main__':
    main()
