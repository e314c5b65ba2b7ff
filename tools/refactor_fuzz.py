"""Applies behaviour-preserving source transformations to every function and
checks that the conformance analysis stays quiet.  Development tool."""
import ast
import copy
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)

from sa.project import Project, PKG
from sa.conform import Conformance, find_renames

COUNT = [0]


def fresh(p='tmp'):
    COUNT[0] += 1
    return '%s_%d' % (p, COUNT[0])


def names_of(fn):
    st, ld, inner = set(), set(), set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name):
            (st if isinstance(n.ctx, (ast.Store, ast.Del)) else ld).add(n.id)
    return st, ld


class FnTransform(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        return self.fn(n) or n

    def fn(self, n):
        return n


class RenameLocals(ast.NodeTransformer):
    def visit_FunctionDef(self, fn, outer=None):
        # only outermost functions without nested scopes declaring nonlocal/global
        if any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(fn)):
            return fn
        params = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.arg):
                params.add(n.arg)
        st, _ = names_of(fn)
        defs = {n.name for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn}
        imp = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.alias):
                imp.add(n.asname or n.name.split('.')[0])
            if isinstance(n, ast.ExceptHandler) and n.name:
                imp.add(n.name)
        m = {x: x + '_renamed' for x in st - params - defs - imp}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in m:
                n.id = m[n.id]
        return fn


class InvertIf(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class ElseReturn(ast.NodeTransformer):
    """if c: ...return; rest  ->  if c: ...return else: rest"""

    def block(self, b):
        out = []
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and i + 1 < len(b):
                rest = self.block(b[i + 1:])
                s.orelse = rest
                out.append(s)
                return out
            out.append(s)
        return out

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                setattr(n, f, self.block(b))
        return n


class ContinueToNest(ast.NodeTransformer):
    """continue guard -> nested body."""

    def visit_For(self, n):
        self.generic_visit(n)
        n.body = self.blk(n.body)
        return n

    def blk(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and i + 1 < len(b):
                return b[:i] + [ast.If(ast.UnaryOp(ast.Not(), s.test), self.blk(b[i + 1:]), [])]
        return b


class ExtractTemp(ast.NodeTransformer):
    """Names the argument expressions of calls in simple statements."""

    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and isinstance(s.value, ast.Call) and not has_scope(s.value):
                c = s.value
                pre = []
                # keep evaluation order: name all positional args left to right
                simple = isinstance(c.func, (ast.Name, ast.Attribute)) and pure_name(c.func)
                if simple and not any(isinstance(a, ast.Starred) for a in c.args) and c.args:
                    new = []
                    for a in c.args:
                        if isinstance(a, (ast.Name, ast.Constant)):
                            new.append(a)
                            continue
                        t = fresh()
                        pre.append(ast.Assign([ast.Name(t, ast.Store())], a))
                        new.append(ast.Name(t, ast.Load()))
                    c.args = new
                out += pre + [s]
            elif isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                t = fresh('result')
                out += [ast.Assign([ast.Name(t, ast.Store())], s.value), ast.Return(ast.Name(t, ast.Load()))]
            elif isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)) and not any(isinstance(q, ast.NamedExpr) for q in ast.walk(s.test)):
                t = fresh('cond')
                out += [ast.Assign([ast.Name(t, ast.Store())], s.test), s]
                s.test = ast.Name(t, ast.Load())
            else:
                out.append(s)
        return out

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)) and b:
                if f == 'orelse' and len(b) == 1 and isinstance(b[0], ast.If):
                    setattr(n, f, self.block(b))
                else:
                    setattr(n, f, self.block(b))
        return n


def has_scope(e):
    return False


def pure_name(e):
    return all(isinstance(x, (ast.Name, ast.Attribute, ast.Load)) for x in ast.walk(e))


class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body[i:i] = ast.parse('_unused = None\npass\n0\nassert True\nif False:\n  pass').body
        k = len(n.body) - 1 if isinstance(n.body[-1], ast.Return) else len(n.body)
        n.body[k:k] = ast.parse('_ = len("")\ndel _').body
        return n


class CompToLoop(ExtractTemp):
    """x = [e for t in it if c] -> loop with append; same for dict/set; return too."""

    def block(self, b):
        out = []
        for s in b:
            v = getattr(s, 'value', None)
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(v, (ast.ListComp, ast.DictComp, ast.SetComp)):
                if isinstance(s, ast.Assign) and not (len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
                    out.append(s)
                    continue
                t = fresh('acc')
                init = {ast.ListComp: ast.List([], ast.Load()), ast.DictComp: ast.Dict([], []), ast.SetComp: ast.Call(ast.Name('set', ast.Load()), [], [])}[type(v)]
                nm = ast.Name(t, ast.Load())
                if isinstance(v, ast.DictComp):
                    core = ast.Assign([ast.Subscript(nm, v.key, ast.Store())], v.value)
                else:
                    core = ast.Expr(ast.Call(ast.Attribute(nm, 'append' if isinstance(v, ast.ListComp) else 'add', ast.Load()), [v.elt], []))
                body = [core]
                for g in reversed(v.generators):
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    body = [ast.For(g.target, g.iter, body, [])]
                out += [ast.Assign([ast.Name(t, ast.Store())], init)] + body
                if isinstance(s, ast.Return):
                    out.append(ast.Return(nm))
                else:
                    out.append(ast.Assign(s.targets, nm))
            else:
                out.append(s)
        return out



class LoopToComp(ExtractTemp):
    """x = []; for t in it: x.append(e) -> x = [e for t in it]."""

    def block(self, b):
        out = []
        i = 0
        while i < len(b):
            s = b[i]
            if (i + 1 < len(b) and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)
                    and isinstance(s.value, (ast.List, ast.Dict)) and not getattr(s.value, 'elts', getattr(s.value, 'keys', [])) and isinstance(b[i + 1], ast.For)):
                f = b[i + 1]
                x = s.targets[0].id
                if len(f.body) == 1 and not f.orelse:
                    core = f.body[0]
                    ifs = []
                    while isinstance(core, ast.If) and not core.orelse and len(core.body) == 1:
                        ifs.append(core.test)
                        core = core.body[0]
                    if isinstance(core, ast.Expr) and isinstance(core.value, ast.Call) and isinstance(core.value.func, ast.Attribute) and core.value.func.attr == 'append' \
                            and isinstance(core.value.func.value, ast.Name) and core.value.func.value.id == x and isinstance(s.value, ast.List):
                        out.append(ast.Assign(s.targets, ast.ListComp(core.value.args[0], [ast.comprehension(f.target, f.iter, ifs, 0)])))
                        i += 2
                        continue
                    if isinstance(core, ast.Assign) and isinstance(core.targets[0], ast.Subscript) and isinstance(core.targets[0].value, ast.Name) and core.targets[0].value.id == x and isinstance(s.value, ast.Dict):
                        out.append(ast.Assign(s.targets, ast.DictComp(core.targets[0].slice, core.value, [ast.comprehension(f.target, f.iter, ifs, 0)])))
                        i += 2
                        continue
            out.append(s)
            i += 1
        return out



class IfExpToIf(ExtractTemp):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                v = s.value
                out.append(ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)]))
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                v = s.value
                out.append(ast.If(v.test, [ast.Return(v.body)], []))
                out.append(ast.Return(v.orelse))
            else:
                out.append(s)
        return out



class ItemsToKeys(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items' and isinstance(n.target, ast.Tuple) \
                and isinstance(n.target.elts[0], ast.Name) and pure_name(it.func.value):
            k, v = n.target.elts
            n.iter = it.func.value
            n.target = k
            n.body = [ast.Assign([v], ast.Subscript(copy.deepcopy(it.func.value), ast.Name(k.id, ast.Load()), ast.Load()))] + n.body
        return n


class FmtString(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        s, args = '', []
        for v in n.values:
            if isinstance(v, ast.Constant):
                s += v.value.replace('{', '{{').replace('}', '}}')
            elif v.format_spec is not None or v.conversion != -1:
                return n
            else:
                s += '{}'
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(s), 'format', ast.Load()), args, [])

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and '%s' in n.left.value:
            import re
            sp = re.findall('%.', n.left.value)
            if all(x == '%s' for x in sp) and '{' not in n.left.value:
                args = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
                if len(args) == len(sp) and (isinstance(n.right, ast.Tuple) or len(sp) == 1 and isinstance(n.right, (ast.Attribute, ast.Constant))):
                    return ast.Call(ast.Attribute(ast.Constant(n.left.value.replace('%s', '{}')), 'format', ast.Load()), args, [])
        return n


class LambdaToDef(ExtractTemp):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and s.value is not None:
                lams = [n for n in ast.walk(s.value) if isinstance(n, ast.Lambda)]
                comp = any(isinstance(n, (ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp, ast.Lambda)) and any(isinstance(q, ast.Lambda) for q in ast.walk(n) if q is not n) for n in ast.walk(s.value))
                if len(lams) == 1 and not comp and not lams[0].args.defaults:
                    l = lams[0]
                    nm = fresh('fn')
                    d = ast.FunctionDef(nm, l.args, [ast.Return(l.body)], [])
                    d.type_params = []

                    class Rp(ast.NodeTransformer):
                        def visit_Lambda(self, q):
                            return ast.Name(nm, ast.Load())
                    s.value = Rp().visit(s.value)
                    out += [d, s]
                    continue
            out.append(s)
        return out



class ExtractHelper(ast.NodeTransformer):
    """The tail of each function body moves to a new module-level helper."""

    def __init__(self, mode='tail'):
        self.helpers = []
        self.mode = mode
        self.cls = None

    def visit_ClassDef(self, n):
        o = self.cls
        self.cls = n
        self.generic_visit(n)
        self.cls = o
        return n

    def visit_FunctionDef(self, fn):
        if any(isinstance(n, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom)) for n in ast.walk(fn)):
            return fn
        if 'super' in {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)}:
            return fn
        b = fn.body
        if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and len(b) > 1:
            doc, b = b[:1], b[1:]
        else:
            doc = []
        if self.mode == 'tail':
            k = max(1, len(b) // 2) if len(b) > 1 else 0
            head, tail = b[:k], b[k:]
        else:   # expr: returned expression
            if not isinstance(b[-1], ast.Return) or b[-1].value is None or isinstance(b[-1].value, (ast.Name, ast.Constant)):
                return fn
            head, tail = b[:-1], b[-1:]
        if not tail:
            return fn
        avail = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
        if fn.args.vararg:
            avail.add(fn.args.vararg.arg)
        if fn.args.kwarg:
            avail.add(fn.args.kwarg.arg)
        for s in head:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    avail.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    avail.add(n.name)
        used = []
        for s in tail:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and n.id in avail and n.id not in used:
                    used.append(n.id)
        # parameters must definitely be assigned: skip when bound only under a condition
        top = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
        for s in head:
            if isinstance(s, (ast.Assign, ast.AnnAssign, ast.FunctionDef, ast.AugAssign)):
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        top.add(n.id)
                if isinstance(s, ast.FunctionDef):
                    top.add(s.name)
            if isinstance(s, ast.If):
                def asg(bl):
                    return {n.id for q in bl for n in ast.walk(q) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                if s.orelse:
                    top |= asg(s.body) & asg(s.orelse)
        if any(u not in top for u in used):
            return fn
        nm = fresh('_extracted')
        node = ast.FunctionDef(nm, ast.arguments([], [ast.arg(u) for u in used], None, [], [], None, []), tail, [])
        node.type_params = []
        self.helpers.append(node)
        fn.body = doc + head + [ast.Return(ast.Call(ast.Name(nm, ast.Load()), [ast.Name(u, ast.Load()) for u in used], []))]
        return fn


class ExtractBlock(ast.NodeTransformer):
    """A run of statements becomes a helper (module function, or method when self is used) returning the names used later."""

    def __init__(self, seed=0, method=False):
        import random
        self.r = random.Random(seed)
        self.helpers = []
        self.method = method
        self.cls = []

    def visit_ClassDef(self, n):
        self.cls.append([])
        n.body = [self.visit(x) for x in n.body]
        n.body += self.cls.pop()
        return n

    depth = 0

    def visit_FunctionDef(self, fn):
        if self.depth == 0:
            self.outer = []
        for sub in [x for x in fn.body if isinstance(x, ast.FunctionDef)]:
            self.depth += 1
            self.outer.append(set().union(*names_of(fn)) | {a.arg for a in fn.args.args} | (self.outer[-1] if self.outer else set()))
            self.visit_FunctionDef(sub)
            self.outer.pop()
            self.depth -= 1
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.NamedExpr)) for x in ast.walk(fn)):
            return fn
        # candidate blocks: statement lists at top level or one level inside for/if/with
        lists = [fn.body] + [b for s in fn.body if isinstance(s, (ast.For, ast.If, ast.With)) for b in (s.body, getattr(s, 'orelse', [])) if b]
        params = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs] + [a.arg for a in (fn.args.vararg, fn.args.kwarg) if a]
        allnames = names_of(fn)
        for _ in range(6):
            b = self.r.choice(lists)
            i = self.r.randrange(len(b))
            j = self.r.randrange(i + 1, min(len(b), i + 3) + 1)
            blk = b[i:j]
            if b is fn.body and i == 0 and isinstance(blk[0], ast.Expr) and isinstance(blk[0].value, ast.Constant):
                continue
            if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.Delete, ast.Try, ast.Import, ast.ImportFrom)) for s in blk for x in ast.walk(s)):
                continue
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' for s in blk for x in ast.walk(s)):
                continue
            if all(isinstance(s, ast.Pass) for s in blk) or any(isinstance(x, ast.Attribute) and x.attr.startswith('__') and not x.attr.endswith('__') for s in blk for x in ast.walk(s)):
                continue
            ids = {id(x) for s in blk for x in ast.walk(s)}
            comp = {id(n) for s in blk for c in ast.walk(s) if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) for g in c.generators for n in ast.walk(g.target)}
            stored = [x.id for s in blk for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in comp]
            loaded = {x.id for s in blk for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
            aug = {x.target.id for s in blk for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
            outer_loads = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in ids}
            looped = any(isinstance(x, (ast.For, ast.While)) and id(x) not in ids and any(id(y) in ids for y in ast.walk(x)) for x in ast.walk(fn))
            ret = [x for x in dict.fromkeys(stored) if x in outer_loads or looped and x in (loaded | aug)]
            # names assigned only conditionally inside the block must exist before it: require definite assignment
            definite = {x.id for s in blk if isinstance(s, (ast.Assign, ast.AnnAssign)) for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) for x in ast.walk(t) if isinstance(x, ast.Name)}
            before = set(params) | {x.id for s in fn.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in ids}
            definite_before = set(params) | {x.id for s in fn.body[:fn.body.index(b[i]) if b is fn.body else next(k for k, s in enumerate(fn.body) if b in (getattr(s, 'body', None), getattr(s, 'orelse', None)))] if isinstance(s, (ast.Assign,)) for t in s.targets for x in ast.walk(t) if isinstance(x, ast.Name)}
            if any(x not in definite and x not in definite_before for x in ret):
                continue
            locs = before | set(stored)
            args = sorted(x for x in (loaded | aug | (set(ret) - definite)) if x in locs and (x in before))
            if any(x in stored and x not in aug and x not in definite_before and x not in definite for x in args):
                continue
            if any(x in stored and x not in definite_before for x in args):
                continue
            inner = {x.name for s in ast.walk(fn) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s is not fn for x in [s]} | {(a.asname or a.name).split('.')[0] for s in ast.walk(fn) if isinstance(s, (ast.Import, ast.ImportFrom)) for a in s.names}
            if inner & (loaded | set(stored)):
                continue
            # a nested function: captured names of the enclosing function are not visible in the helper
            if self.depth and (loaded - locs) & self.outer[-1]:
                continue
            nm = fresh('_blk')
            body = list(blk)
            if ret:
                body = body + [ast.Return(ast.Tuple([ast.Name(x, ast.Load()) for x in ret], ast.Load()) if len(ret) > 1 else ast.Name(ret[0], ast.Load()))]
            meth = self.method and self.cls and 'self' in args and params[:1] == ['self']
            if 'cls' in args and params[:1] == ['cls']:
                continue
            if meth:
                args = ['self'] + [x for x in args if x != 'self']
            d = ast.FunctionDef(nm, ast.arguments([], [ast.arg(x) for x in args], None, [], [], None, []), body, [], None)
            d.type_params = []
            if meth:
                self.cls[-1].append(d)
                call = ast.Call(ast.Attribute(ast.Name('self', ast.Load()), nm, ast.Load()), [ast.Name(x, ast.Load()) for x in args[1:]], [])
            else:
                self.helpers.append(d)
                call = ast.Call(ast.Name(nm, ast.Load()), [ast.Name(x, ast.Load()) for x in args], [])
            if ret:
                st = ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in ret], ast.Store()) if len(ret) > 1 else ast.Name(ret[0], ast.Store())], call)
            else:
                st = ast.Expr(call)
            b[i:j] = [st]
            return fn
        return fn


class RenamePrivate(ast.NodeTransformer):
    """Renames every private module function/method definition and its uses."""

    def __init__(self, project):
        self.m = {}
        names = {}
        for f in project.functions():
            names.setdefault(f.name, []).append(f)
        for n, fs in names.items():
            if n.startswith('_') and not n.startswith('__') and len(fs) == 1:
                self.m[n] = n + '_impl2'

    def visit(self, n):
        self.generic_visit(n)
        if isinstance(n, ast.Name) and n.id in self.m:
            n.id = self.m[n.id]
        elif isinstance(n, ast.Attribute) and n.attr in self.m:
            n.attr = self.m[n.attr]
        elif isinstance(n, ast.FunctionDef) and n.name in self.m:
            n.name = self.m[n.name]
        return n


class RenameSelfAttr(ast.NodeTransformer):
    def visit_Attribute(self, n):
        self.generic_visit(n)
        return n


class InChain(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.In) and isinstance(n.comparators[0], (ast.Tuple, ast.List, ast.Set)) and pure_name(n.left) and len(n.comparators[0].elts) > 1:
            return ast.BoolOp(ast.Or(), [ast.Compare(copy.deepcopy(n.left), [ast.Eq()], [e]) for e in n.comparators[0].elts])
        if len(n.ops) == 1 and type(n.ops[0]) in FLIP:
            return ast.Compare(n.comparators[0], [FLIP[type(n.ops[0])]()], [n.left])
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.NotEq):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Eq()], n.comparators))
        return n


FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}


class NestAnd(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            body = n.body
            for v in reversed(n.test.values):
                body = [ast.If(v, body, [])]
            return body[0]
        return n


class DeMorgan(ast.NodeTransformer):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
        return n


class SwapAssign(ExtractTemp):
    """Swaps adjacent independent pure assignments and independent validations."""

    def block(self, b):
        out = list(b)
        i = 0
        while i + 1 < len(out):
            s, t = out[i], out[i + 1]
            if isinstance(s, ast.Assign) and isinstance(t, ast.Assign) and all(isinstance(x.targets[0], ast.Name) for x in (s, t)) \
                    and not any(isinstance(n, (ast.Call, ast.Yield, ast.NamedExpr)) for x in (s,) for n in ast.walk(x.value)):
                ds, dt = s.targets[0].id, t.targets[0].id
                us = {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}
                ut = {n.id for n in ast.walk(t.value) if isinstance(n, ast.Name)}
                if ds not in ut and dt not in us and ds != dt and not any(isinstance(n, (ast.Attribute, ast.Subscript)) for n in ast.walk(s.value)):
                    out[i], out[i + 1] = t, s
                    i += 2
                    continue
            if isinstance(s, ast.If) and isinstance(t, ast.If) and not s.orelse and not t.orelse and len(s.body) == len(t.body) == 1 \
                    and isinstance(s.body[0], ast.Raise) and isinstance(t.body[0], ast.Raise):
                out[i], out[i + 1] = t, s
                i += 2
                continue
            i += 1
        return out



class HoistConst(ast.NodeTransformer):
    def __init__(self):
        self.new = []

    def visit_FunctionDef(self, n):
        outer = self

        class H(ast.NodeTransformer):
            def visit_JoinedStr(self, q):
                return q

            def visit_Constant(self, q):
                if isinstance(q.value, (int, str)) and not isinstance(q.value, bool) and q.value not in ('', 0, 1):
                    nm = fresh('_HOISTED')
                    outer.new.append(ast.Assign([ast.Name(nm, ast.Store())], q))
                    return ast.Name(nm, ast.Load())
                return q
        n.body = [H().visit(s) if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) else s for s in n.body]
        return n


class GetToIn(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and len(n.args) in (1, 2) and not n.keywords and pure_name(n.func.value) and isinstance(n.args[0], (ast.Name, ast.Constant)):
            d = n.func.value
            return ast.IfExp(ast.Compare(n.args[0], [ast.In()], [d]), ast.Subscript(copy.deepcopy(d), copy.deepcopy(n.args[0]), ast.Load()), n.args[1] if len(n.args) == 2 else ast.Constant(None))
        return n


class SortedInPlace(ExtractTemp):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == 'sorted' and isinstance(s.targets[0], ast.Name):
                t = s.targets[0].id
                out.append(ast.Assign(s.targets, ast.Call(ast.Name('list', ast.Load()), [s.value.args[0]], [])))
                out.append(ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), 'sort', ast.Load()), [], s.value.keywords)))
            else:
                out.append(s)
        return out


class KeysCall(ast.NodeTransformer):
    """for k in d -> for k in d.keys() when items/keys are obviously dicts (self-attributes excluded)."""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('any', 'all') and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp):
            n.args[0] = ast.ListComp(n.args[0].elt, n.args[0].generators)
        return n


class AnyAll(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('any', 'all') and len(n.args) == 1 and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
            g = n.args[0]
            other = 'all' if n.func.id == 'any' else 'any'
            return ast.UnaryOp(ast.Not(), ast.Call(ast.Name(other, ast.Load()), [ast.GeneratorExp(ast.UnaryOp(ast.Not(), g.elt), g.generators)], []))
        return n


class AugToAssign(ast.NodeTransformer):
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
        return n


class KwPositional(ast.NodeTransformer):
    """Trailing positional args of calls to known project functions become keywords."""

    def __init__(self, project, mod):
        self.p, self.m = project, mod

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, (ast.Name, ast.Attribute)) and not any(isinstance(a, ast.Starred) for a in n.args):
            try:
                d = self.p.dotted(self.m, n.func)
            except Exception:
                d = None
            if d and d.startswith(PKG):
                r = self.p.lookup(d)
                if r[0] == 'func' and not r[1].cls and not r[1].node.args.posonlyargs:
                    names = [a.arg for a in r[1].node.args.args]
                    if len(n.args) <= len(names) and n.args:
                        kw = [ast.keyword(names[i], a) for i, a in enumerate(n.args)]
                        n.args, n.keywords = [], kw + n.keywords
        return n


def transforms(project):
    yield 'identity', lambda t, m: t
    for c in (RenameLocals, InvertIf, ElseReturn, ContinueToNest, ExtractTemp, Noop, CompToLoop, LoopToComp, IfExpToIf, ItemsToKeys, FmtString,
              LambdaToDef, InChain, NestAnd, DeMorgan, SwapAssign, GetToIn, SortedInPlace, KeysCall, AnyAll, AugToAssign):
        yield c.__name__, lambda t, m, c=c: c().visit(t)

    for mode in ('tail', 'expr'):
        def ext(t, m, mode=mode):
            e = ExtractHelper(mode)
            t = e.visit(t)
            t.body += e.helpers
            return t
        yield 'ExtractHelper-' + mode, ext

    for k in range(int(os.environ.get('BLOCKS', '4'))):
        def eb(t, m, k=k):
            e = ExtractBlock(k, k % 2 == 1)
            t = e.visit(t)
            t.body += e.helpers
            return t
        yield 'ExtractBlock-%d' % k, eb

    def hoist(t, m):
        h = HoistConst()
        t = h.visit(t)
        i = 0
        while i < len(t.body) and (isinstance(t.body[i], (ast.Import, ast.ImportFrom)) or (isinstance(t.body[i], ast.Expr))):
            i += 1
        t.body[i:i] = h.new
        return t
    yield 'HoistConst', hoist
    rp = RenamePrivate(project)
    yield 'RenamePrivate', lambda t, m: rp.visit(t)
    yield 'KwPositional', lambda t, m: KwPositional(project, m).visit(t)

    def combo(t, m):
        t = RenameLocals().visit(t)
        t = InvertIf().visit(t)
        t = CompToLoop().visit(t)
        t = ExtractTemp().visit(t)
        e = ExtractHelper('tail')
        t = e.visit(t)
        t.body += e.helpers
        return t
    yield 'combo', combo


def main():
    only = sys.argv[1:] if len(sys.argv) > 1 else None
    root = os.environ.get('REPO', '/repo')
    refroot = os.path.join(os.path.dirname(HERE), 'reference')
    ref = Project(refroot)
    bad = 0
    for name, tr in transforms(ref):
        if only and name not in only:
            continue
        ov = {}
        for m in ref.modules.values():
            tree = ast.parse(m.src)
            if name == 'identity':
                new = ast.unparse(tree)
            else:
                tree = ast.fix_missing_locations(tr(tree, m))
                new = ast.unparse(tree)
            ast.parse(new)
            ov[m.relpath] = new
        cur = Project(refroot, ov)
        rn = find_renames(ref, cur)
        if rn:
            cur = Project(refroot, ov, rename=rn)
        c = Conformance(ref, cur)
        dec, und, van = [], [], 0
        for q in c.rf:
            n, fs, st = c.function(q)
            van += st != 'ok'
            for f in fs:
                (dec if f.dec else und).append(f)
        for k in ref.classes():
            n, fs, st = c.klass(k.qual)
            for f in fs:
                (dec if f.dec else und).append(f)
        for g in c.rg:
            if ref.lookup(g)[0] == 'assign':
                for f in c.constant(g)[1]:
                    (dec if f.dec else und).append(f)
        print('%-22s renames %3d  decisive %3d  undecided %3d  functions with undecided %3d  vanished %d' % (name, len(rn), len(dec), len(und), len({f.qual for f in und}), van))
        for f in dec[:int(os.environ.get('SHOW', '3'))]:
            print('   ALARM', f)
        for f in und[:int(os.environ.get('SHOWU', '0'))]:
            print('   und', f)
        bad += len(dec)
    return bad


if __name__ == '__main__':
    sys.exit(1 if main() else 0)
