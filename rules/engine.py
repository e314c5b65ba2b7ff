"""Deciding a property: reference-mechanism conformance plus explicit rules."""
import ast
import fnmatch
import os
import re

from sa.conform import Conformance, find_moved, find_renames
from sa.project import PKG, Project
from . import props

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = os.path.join(HERE, 'reference')
KNOWN = os.path.join(HERE, 'known_findings.txt')


class AnalysisError(Exception):
    pass


def load(root, overrides=None):
    ref = Project(REF)
    cur = Project(root, overrides)
    if cur.errors:
        raise AnalysisError('cannot parse: %s' % cur.errors[:3])
    mv = find_moved(ref, cur)
    if mv:
        cur = Project(root, overrides, moved=mv)
    rn = find_renames(ref, cur)
    if rn:
        cur = Project(root, overrides, rename=rn, moved=mv)
    return Conformance(ref, cur), rn


def short(q):
    return q[len(PKG) + 1:] if q.startswith(PKG + '.') else q


_index = {}


def index(ref):
    """module:name -> (kind, qual) for everything defined in the reference."""
    if id(ref) in _index:
        return _index[id(ref)]
    out = []
    for m in ref.modules.values():
        mod = short(m.name) if m.name != PKG else ''
        for k, v in m.names.items():
            if v[0] == 'func':
                out.append((mod, k, 'func', m.name + '.' + k))
            elif v[0] == 'assign':
                out.append((mod, k, 'const', m.name + '.' + k))
        for c in ref._all_classes(m):
            path = c.qual[len(m.name) + 1:]
            out.append((mod, path, 'class', c.qual))
            for n in c.methods:
                out.append((mod, path + '.' + n, 'func', c.qual + '.' + n))
            for n in c.attrs:
                out.append((mod, path + '.' + n, 'const', c.qual + '.' + n))
    _index[id(ref)] = out
    return out


def expand(ref, patterns):
    """Scope patterns -> {qual: kind}.  A pattern that matches nothing is an error."""
    scope = {}
    for p in patterns:
        pm, pn = p.split(':')
        hit = False
        for mod, name, kind, qual in index(ref):
            if not fnmatch.fnmatchcase(mod, pm) and not (pm.endswith('.*') and mod == pm[:-2]):
                continue
            if fnmatch.fnmatchcase(name, pn) or (pn.endswith('.*') and name == pn[:-2]) or any(
                    fnmatch.fnmatchcase('.'.join(name.split('.')[:i]), pn) and is_class(ref, mod, '.'.join(name.split('.')[:i]))
                    for i in range(1, name.count('.') + 1)):
                scope[qual] = kind
                hit = True
        if not hit:
            raise AnalysisError('scope pattern matches nothing: ' + p)
    return scope


def is_class(ref, mod, path):
    return ref.lookup(PKG + ('.' + mod if mod else '') + '.' + path)[0] == 'class'


def close(ref, conf, scope):
    """Add private same-module helpers that the scope calls."""
    work = [q for q, k in scope.items() if k == 'func']
    while work:
        q = work.pop()
        fi = conf.rf.get(q)
        if fi is None:
            continue
        pre = fi.mod.name + '.'
        for n in ast.walk(fi.node):
            t = None
            if isinstance(n, ast.Name) and n.id.startswith('_') and not n.id.startswith('__'):
                t = pre + n.id
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls') and fi.cls is not None and n.attr.startswith('_'):
                m = ref.method(fi.cls, n.attr)
                t = m.qual if m is not None else None
            if t is None or t in scope:
                continue
            r = ref.lookup(t)
            if r[0] == 'func' or t in conf.rf:
                scope[t] = 'func'
                work.append(t)
            elif r[0] == 'assign':
                scope[t] = 'const'
    return scope


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


IGNORED_CONST = re.compile(r'(__all__|_DEFAULT_COMBINE_GLOBALLY_FANOUT|_PRESORT_BATCH_SIZE|__version__|_doc|__doc__)$')


class Ctx:
    """What a rule may look at."""

    def __init__(self, conf, scope, pid):
        self.conf, self.scope, self.pid = conf, scope, pid
        self.ref, self.cur = conf.ref, conf.cur

    def fn(self, q):
        """FuncInfo of the current tree, or None."""
        return self.conf.cf.get(PKG + '.' + q)

    def summary(self, fi, cls=None):
        return self.conf.ca().summarize(fi, cls=cls) if cls is not None else self.conf.ca().summarize(fi)

    def rsummary(self, fi, cls=None):
        return self.conf.ra().summarize(fi, cls=cls) if cls is not None else self.conf.ra().summarize(fi)

    def klass(self, q):
        r = self.cur.lookup(PKG + '.' + q)
        return r[1] if r[0] == 'class' else None


class Rule:
    """Obligations of one explicit rule, as gathered on this run."""

    def __init__(self, name, text):
        self.name, self.text = name, text
        self.sites, self.bad, self.skipped = [], [], []

    def ok(self, site):
        self.sites.append(site)

    def fail(self, loc, construct, text):
        self.sites.append(construct)
        self.bad.append((loc, construct, text))

    def skip(self, why):
        self.skipped.append(why)

    def check(self, cond, loc, construct, text):
        if cond:
            self.ok(construct)
        else:
            self.fail(loc, construct, text)


def decide(pid, root, tier='quick', seed=1, overrides=None, conf=None):
    from . import explicit
    P = {p['id']: p for p in props.PROPS}
    if pid not in P:
        raise AnalysisError('unknown property')
    p = P[pid]
    if conf is None:
        conf, rn = load(root, overrides)
    else:
        conf, rn = conf
    scope = close(conf.ref, conf, expand(conf.ref, p['scope']))
    facts, viol, und = 0, [], []
    counts = {'func': 0, 'class': 0, 'const': 0}
    vanished = []
    failed = []
    samples = []
    for q, kind in sorted(scope.items()):
        if kind == 'const' and (IGNORED_CONST.search(q)):
            continue
        if kind == 'func' and q not in conf.rf:
            continue
        try:
            n, fs, st = {'func': conf.function, 'class': conf.klass, 'const': conf.constant}[kind](q)
        except Exception as e:
            n, fs, st = 0, [], 'not analysed: %s %s' % (type(e).__name__, str(e)[:100])
        if st == 'vanished':
            vanished.append(short(q))
            continue
        if st != 'ok':
            failed.append('%s (%s)' % (short(q), st))
            continue
        counts[kind] += 1
        facts += n
        if kind == 'func' and n > 3 and len(samples) < 4:
            samples.append({'function': short(q), 'obligations': n, 'findings': len(fs)})
        for f in fs:
            rec = {'rule': 'mechanism', 'location': f.loc, 'construct': short(f.qual), 'text': '%s: %s' % (f.fact, f.diff), 'key': re.sub(r'\s+', '_', '%s|%s|%s' % (short(f.qual), f.fact, getattr(f.diff, 'what', '')))}
            (viol if f.dec else und).append(rec)
    pub = [v for v in vanished if not any(x.startswith('_') for x in v.split('.')[-2:])]
    if facts == 0 or len(vanished) > max(4, 0.4 * len(scope)):
        raise AnalysisError('anchors vanished: %s' % ', '.join(vanished[:8]))
    rules = []
    for name in p['rules']:
        if name not in explicit.RULES:
            continue
        r = explicit.run(name, Ctx(conf, scope, pid))
        rules.append(r)
        for loc, c, text in r.bad:
            viol.append({'rule': r.name, 'location': loc, 'construct': c, 'text': text, 'key': re.sub(r'\s+', '_', '%s|%s' % (r.name, c))})
    kf = known_findings(pid)
    known, left = [], []
    for v in viol:
        hit = [t for k, t in kf if k == v['key']]
        if hit:
            known.append('%s (%s)' % (hit[0], v['location']))
        else:
            left.append(v)
    nrule = sum(len(r.sites) for r in rules)
    report = ['%s %s' % (pid, p['title']),
              'analysed %d functions, %d classes, %d constants of %d modules; %d mechanism obligations, %d undecided; %d rule obligations'
              % (counts['func'], counts['class'], counts['const'], len(conf.cur.modules), facts, len(und), nrule)]
    for r in rules:
        report.append('  rule %s: %d sites, %d violated%s' % (r.name, len(r.sites), len(r.bad), ', %d not decided' % len(r.skipped) if r.skipped else ''))
    if vanished:
        report.append('  definitions folded into others or moved: ' + ', '.join(vanished[:10]))
    if failed:
        report.append('  not analysed: ' + ', '.join(failed[:10]))
    if rn:
        report.append('  renamed since the confirmed tree: ' + ', '.join('%s->%s' % (v, k) for k, v in sorted(rn.items())[:10]))
    cov = {
        'explanation': 'Static decision from source. Mechanism obligations: result, raised conditions, stores, calls, contexts, order of effects, defaults, class tables of each scoped definition, '
                       'compared as guarded value graphs with the confirmed mechanism; only differences shown inequivalent are violations. ' + p['decided'],
        'obligations': facts + nrule, 'discharged': facts + nrule - len(und) - len(viol),
        'functions': counts['func'], 'classes': counts['class'], 'constants': counts['const'], 'modules_parsed': len(conf.cur.modules),
        'undecided': len(und), 'folded_or_moved': vanished, 'not_analysed': failed, 'known_findings': len(known),
        'rules': [{'rule': r.name, 'text': r.text, 'sites': len(r.sites), 'violated': len(r.bad), 'not_decided': r.skipped[:10], 'sample_sites': r.sites[:6]} for r in rules],
        'samples': samples,
        'trusted_base': ['CPython ast parser', '/verif/sa (abstract evaluator and condition solver)', '/verif/reference (mechanism confirmed by reading)'],
    }
    if tier == 'thorough':
        from . import deep
        cov['self_test'] = deep.self_test(pid, p, scope, conf, seed, report)
    return dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov, violations=len(left), report=report, known=known,
                violation_list=left, undecided_list=und,
                assumptions=['no monkey-patching or dynamic attribute creation beyond what the source shows', 'calls into TensorFlow, Beam, Arrow and NumPy behave as documented'])
