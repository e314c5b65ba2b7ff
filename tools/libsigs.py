#!/usr/bin/env python3
"""Write sa/libsigs.json: parameter names and constant defaults of the third-party callables the
project uses or may use (tensorflow, numpy, apache_beam, ...), and the aliases under which the same
callable is reachable.  Run once with the interpreter that has these libraries installed:

  /opt/venv/bin/python tools/libsigs.py

The table describes the libraries only; nothing of /repo is imported or consulted.
"""
import inspect
import json
import os
import sys
import types

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')

SKIP = ('keras', 'estimator', 'tpu', 'distribute', 'lite', 'xla', 'contrib', 'mlir', 'testing', 'tests', 'f2py', 'distutils', 'python', 'core', 'internal')
out, ids = {}, {}


def sig(o):
    try:
        s = inspect.signature(o)
    except (ValueError, TypeError):
        return None
    names, dflt, var = [], {}, 0
    for p in s.parameters.values():
        if p.kind == p.POSITIONAL_ONLY:
            return None
        if p.kind == p.VAR_POSITIONAL:
            var = 1
            continue
        if p.kind == p.VAR_KEYWORD:
            continue
        if p.kind == p.POSITIONAL_OR_KEYWORD:
            names.append(p.name)
        d = p.default
        if d is not p.empty and type(d) in (type(None), bool, int, float, str) and d == d and abs(d if isinstance(d, (int, float)) else 0) < 1e300:
            dflt[p.name] = d
    return [names, dflt, var]


def put(name, o):
    s = sig(o)
    if s is not None and (s[0] or s[1]):
        out[name] = s
        ids.setdefault(id(o), []).append(name)


def walk(name, m, depth, seen):
    if depth < 0 or id(m) in seen:
        return
    seen.add(id(m))
    for k in sorted(set(dir(m))):
        if k.startswith('_') or k in SKIP:
            continue
        try:
            o = getattr(m, k)
        except Exception:
            continue
        q = name + '.' + k
        if isinstance(o, types.ModuleType) or type(o).__name__ in ('TFModuleWrapper', 'LazyLoader', 'KerasLazyLoader', '_KerasLazyLoader'):
            if getattr(o, '__name__', '').split('.')[0] == m.__name__.split('.')[0] or name == 'tensorflow':
                walk(q, o, depth - 1, seen)
        elif callable(o):
            put(q, o)


def main():
    import numpy
    import tensorflow as tf
    import apache_beam
    seen = set()
    walk('tensorflow', tf, 2, seen)
    seen = set()
    walk('tensorflow.compat.v1', tf.compat.v1, 2, seen)
    seen = set()
    for k in sorted(dir(numpy)):
        o = getattr(numpy, k, None)
        if not k.startswith('_') and callable(o) and not isinstance(o, types.ModuleType):
            put('numpy.' + k, o)
    for k in sorted(dir(apache_beam)):
        o = getattr(apache_beam, k)
        if not k.startswith('_') and callable(o):
            put('apache_beam.' + k, o)
    for m in ('os', 'os.path', 'shutil', 'tempfile', 'json', 'pickle', 'hashlib', 'itertools', 'functools', 'collections', 'copy', 'base64',
              'apache_beam.typehints', 'apache_beam.io', 'apache_beam.combiners', 'apache_beam.pvalue', 'apache_beam.metrics', 'uuid', 'apache_beam.utils.shared', 'apache_beam.coders', 'pyarrow', 'google.protobuf.text_format',
              'google.protobuf.json_format', 'dill', 'tfx_bsl.tfxio.tensor_adapter', 'tfx_bsl.tfxio.tf_example_record',
              'tfx_bsl.coders.example_coder', 'tensorflow.python.lib.io.file_io'):
        try:
            mod = apache_beam.transforms.combiners if m == 'apache_beam.combiners' else __import__(m, fromlist=['x'])
        except Exception as e:
            print('skipped', m, e)
            continue
        for k in sorted(dir(mod)):
            o = getattr(mod, k, None)
            if not k.startswith('_') and callable(o) and not isinstance(o, types.ModuleType):
                put(m + '.' + k, o)
    alias = {}
    for names in ids.values():
        names = sorted({n for n in names if n.startswith('tensorflow.')}, key=lambda n: (n.count('.'), len(n), n))
        for n in names[1:]:
            if not n.startswith('tensorflow.compat.v1.') or names[0].rsplit('.', 1)[-1] == n.rsplit('.', 1)[-1]:
                alias[n] = names[0]
    for n in alias:
        out.pop(n, None)
    json.dump({'signatures': out, 'aliases': alias}, open(os.path.join(HERE, 'sa', 'libsigs.json'), 'w'), sort_keys=True, separators=(',', ':'))
    print(len(out), 'signatures', len(alias), 'aliases')


main()
