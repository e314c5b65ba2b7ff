#!/usr/bin/env python3
"""Sensitivity on rewritten code: mutate one construct of a function that a refactoring of the corpus touched.

mutate_refactored.py [count] [seed] [processes] -- prints how many mutants were reported and lists the others.
"""
import ast
import os
import random
import sys
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.setrecursionlimit(20000)
import mutate  # noqa: E402
import refactor_corpus as rc  # noqa: E402
from sa.conform import Conformance, find_renames  # noqa: E402
from sa.project import Project  # noqa: E402


def functions(tree):
    out = {}

    def rec(node, pre):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                q = pre + '.' + c.name
                if isinstance(c, ast.FunctionDef):
                    out[q] = c
                    continue
                rec(c, q)
    rec(tree, '')
    return out


def check(rel, src):
    ref = Project(rc.ROOT)
    cur = Project(rc.ROOT, {rel: src})
    rn = find_renames(ref, cur)
    if rn:
        cur = Project(rc.ROOT, {rel: src}, rename=rn)
    c = Conformance(ref, cur)
    mod = rel[:-3].replace('/', '.')
    fs = []
    for f in ref.functions():
        if f.mod.name == mod:
            fs += c.function(f.qual)[1]
    for k in ref.classes():
        if k.mod.name == mod:
            fs += c.klass(k.qual)[1]
    return fs


def job(a):
    spec, seed = a
    id, rel, edits, up = spec
    rnd = random.Random('%s %s' % (id, seed))
    orig = rc.plain(open(os.path.join(rc.ROOT, rel)).read())
    src = open(os.path.join(rc.ROOT, rel)).read()
    if up:
        src = rc.plain(src)
    for o, n in edits:
        src = src.replace(o, n, 1)
    src = rc.plain(src)
    F0, F1 = functions(ast.parse(orig)), functions(ast.parse(src))
    tree = ast.parse(src)
    F1 = functions(tree)
    changed = [f for q, f in F1.items() if q not in F0 or ast.dump(F0[q]) != ast.dump(f)]
    ms = [(f, m) for f in changed for m in mutate.mutants(f) if m[2] is not None]
    if not ms:
        return id, None
    f, (op, what, new) = rnd.choice(ms)
    for p in ast.walk(tree):
        for _, v in ast.iter_fields(p):
            if isinstance(v, list) and f in v:
                v[v.index(f)] = new
    try:
        text = ast.unparse(ast.fix_missing_locations(tree))
        compile(text, rel, 'exec')
        fs = check(rel, text)
    except SyntaxError:
        return id, None
    return id, (op, what, f.name, 'reported' if any(x.dec for x in fs) else 'undecided' if fs else 'UNNOTICED', [repr(x)[:300] for x in fs[:3]])


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 100
    seed = sys.argv[2] if len(sys.argv) > 2 else '1'
    ss = rc.specs('refactorings')
    random.Random(seed).shuffle(ss)
    tot = {}
    with ProcessPoolExecutor(int(sys.argv[3]) if len(sys.argv) > 3 else 8) as ex:
        for id, r in ex.map(job, [(s, seed) for s in ss[:n]]):
            if r is None:
                continue
            tot[r[3]] = tot.get(r[3], 0) + 1
            if r[3] != 'reported':
                print(id, r[2], r[0], '|', r[1][:160], '|', r[3])
                for t in r[4]:
                    print('      ', t)
    print(tot)


if __name__ == '__main__':
    main()
