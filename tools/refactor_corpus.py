#!/usr/bin/env python3
"""Hand-written edits of the reference tree, applied in memory and compared.

refactor_corpus.py [id...]      -- behaviour-preserving edits (tools/refactorings/*.py): each must leave
                                   the comparison quiet; decisive findings are listed as false alarms.
refactor_corpus.py bugs [id...] -- behaviour-changing edits (tools/bugs/*.py): each must be reported.

R(id, file, (old, new)...) edits the file as it stands, S(...) its docstring-free ast.unparse form.
"""
import ast
import glob
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from concurrent.futures import ProcessPoolExecutor  # noqa: E402
from sa.conform import Conformance, find_renames  # noqa: E402
from sa.project import Project  # noqa: E402

ROOT = os.path.join(HERE, 'reference')


def specs(kind):
    out = []

    def R(id, rel, *edits):
        out.append((id, 'tensorflow_transform/' + rel, edits, False))

    def S(id, rel, *edits):
        out.append((id, 'tensorflow_transform/' + rel, edits, True))
    for f in sorted(glob.glob(os.path.join(HERE, 'tools', kind, '*.py'))):
        exec(compile(open(f).read(), f, 'exec'), {'R': R, 'S': S})
    return out


def plain(src):
    """Source without comments, docstrings and layout."""
    t = ast.parse(src)
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
    return '\n'.join(x for x in ast.unparse(t).split('\n') if x.strip()) + '\n'


def run(spec):
    id, rel, edits, unparsed = spec
    src = open(os.path.join(ROOT, rel)).read()
    if unparsed:
        src = plain(src)
    for old, new in edits:
        if src.count(old) != 1 and not (not unparsed and src.count(old)):
            return id, 'OLD TEXT FOUND %d TIMES: ' % src.count(old) + old[:60], []
        src = src.replace(old, new, 1)
    try:
        compile(src, rel, 'exec')
    except SyntaxError as e:
        return id, 'SYNTAX ' + str(e), []
    ref = Project(ROOT)
    ov = {rel: src}
    cur = Project(ROOT, ov)
    rn = find_renames(ref, cur)
    if rn:
        cur = Project(ROOT, ov, rename=rn)
    c = Conformance(ref, cur)
    mod = rel[:-3].replace('/', '.')
    fs = []
    for f in ref.functions():
        if f.mod.name == mod:
            fs += c.function(f.qual)[1]
    for k in ref.classes():
        if k.mod.name == mod:
            fs += c.klass(k.qual)[1]
    for g in c.rg:
        if g.rsplit('.', 1)[0] == mod and ref.lookup(g)[0] == 'assign':
            fs += c.constant(g)[1]
    return id, None, [('DEC' if f.dec else 'und', repr(f)) for f in fs]


def main():
    sel = sys.argv[1:]
    bugs = sel[:1] == ['bugs']
    if bugs:
        sel = sel[1:]
    ss = [s for s in specs('bugs' if bugs else 'refactorings') if not sel or any(s[0].startswith(x) for x in sel)]
    bad = und = 0
    with ProcessPoolExecutor(8) as ex:
        for id, err, fs in ex.map(run, ss):
            d = [t for k, t in fs if k == 'DEC']
            if err:
                print(id, err)
                bad += 1
            elif bool(d) != bugs:
                bad += 1
                print(id, 'MISSED' if bugs else 'ALARM')
                for t in (d or [t for k, t in fs])[:6]:
                    print('    ', t[:420])
            elif fs and not d:
                und += 1
            if sel and fs and bool(d) == bugs:
                print(id, 'reported' if bugs else 'undecided')
                for k, t in fs[:8]:
                    print('    ', k, t[:420])
    print('%d edits, %d %s, %d with undecided findings only' % (len(ss), bad, 'missed or errors' if bugs else 'alarms or errors', und))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
