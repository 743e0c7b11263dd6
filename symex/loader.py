"""Loads the code under test from its current source with every call, `in`,
`is`, `not`, `%`, subscript load, f-string and comprehension routed through the
symbolic models.  Control flow, assignments, attribute access and arithmetic
are untouched Python."""
import ast
from copy import deepcopy as _cp
import builtins
import os
import sys
import types
from . import models as M
from .core import CUR

REPO = os.environ.get('VERIF_REPO', '/repo')


GUARDED = []      # (function, line) of the loops and ifs executed under guards


class Tr(ast.NodeTransformer):
    def __init__(self):
        self.cls = 0
        self.fn = 0
        self.func = []
        self.loops = []

    def visit_ClassDef(self, n):
        saved = self.fn
        self.fn = 0
        self.cls += 1
        n.body = [self.visit(b) for b in n.body]
        self.cls -= 1
        self.fn = saved
        return n

    def _func(self, n):
        # decorators and annotations keep their meaning untouched
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d else d for d in n.args.kw_defaults]
        self.fn += 1
        self.func.append(dict(self._scan(n), name=n.name))
        loops, self.loops = self.loops, []
        body = []
        for b in n.body:
            r = self.visit(b)
            body.extend(r if isinstance(r, list) else [r])
        n.body = body
        self.loops = loops
        self.func.pop()
        self.fn -= 1
        return n

    def visit_FunctionDef(self, n):
        n = self._func(n)
        # record the function as executed
        mark = ast.Expr(ast.Call(ast.Name('_sx_enter', ast.Load()), [ast.Constant(n.name)], []))
        i = 0
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            i = 1
        n.body.insert(i, mark)
        return n

    def visit_Lambda(self, n):
        self.fn += 1
        n.body = self.visit(n.body)
        self.fn -= 1
        return n

    def visit_AnnAssign(self, n):
        if n.value:
            n.value = self.visit(n.value)
        return n

    def _h(self, name, *args):
        return ast.Call(ast.Name('_sx_' + name, ast.Load()), list(args), [])

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in ('super', 'locals', 'globals', 'NamedTuple'):
            self.generic_visit(n)
            return n
        self.generic_visit(n)
        return ast.Call(ast.Name('_sx_call', ast.Load()), [n.func] + n.args, n.keywords)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            name = {ast.In: 'in', ast.NotIn: 'not_in', ast.Is: 'is', ast.IsNot: 'is_not'}.get(type(n.ops[0]))
            if name:
                return self._h(name, n.left, n.comparators[0])
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return self._h('not', n.operand)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return self._h('mod', n.left, n.right)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.fn:
            sl = n.slice
            if isinstance(sl, ast.Slice):
                sl = ast.Call(ast.Name('slice', ast.Load()),
                              [x or ast.Constant(None) for x in (sl.lower, sl.upper, sl.step)], [])
            elif isinstance(sl, ast.Tuple):
                sl = ast.Tuple([ast.Call(ast.Name('slice', ast.Load()),
                                         [x or ast.Constant(None) for x in (e.lower, e.upper, e.step)], [])
                                if isinstance(e, ast.Slice) else e for e in sl.elts], ast.Load())
            return self._h('get', n.value, sl)
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if self.fn and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) \
                and not isinstance(n.targets[0].slice, (ast.Slice, ast.Tuple)):
            t = n.targets[0]
            return ast.Expr(self._h('set', n.value, t.value, t.slice))
        return n

    PURE = {'union', 'difference', 'intersection', 'symmetric_difference', 'copy', 'keys'}

    def _pure(self, e):
        if isinstance(e, (ast.Name, ast.Constant)):
            return True
        if isinstance(e, ast.Attribute):
            return self._pure(e.value)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return self._pure(e.left) and self._pure(e.right)
        if isinstance(e, ast.Call) and not e.keywords and all(self._pure(x) for x in e.args):
            if isinstance(e.func, ast.Attribute) and e.func.attr in self.PURE:
                return self._pure(e.func.value)
            return isinstance(e.func, ast.Name) and e.func.id in ('set', 'frozenset')
        return False

    # ---- loops over / ifs on symbolic conditions that only fill local collections and flags (see models.GItem)
    def _fresh(self):
        self.k = getattr(self, 'k', 0) + 1
        return '_sx_%d' % self.k

    @staticmethod
    def _store(b):
        """(name, kind) of a statement that stores into a local collection or flag"""
        if isinstance(b, ast.Assign) and len(b.targets) == 1:
            t = b.targets[0]
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and not isinstance(t.slice, (ast.Slice, ast.Tuple)):
                return t.value.id, 'item'
            if isinstance(t, ast.Name) and isinstance(b.value, ast.Constant) and isinstance(b.value.value, bool):
                return t.id, 'flag'
        if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and isinstance(b.op, ast.Add) \
                and isinstance(b.value, ast.Constant) and type(b.value.value) is int:
            return b.target.id, 'count'
        if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) \
                and isinstance(b.value.func.value, ast.Name) and b.value.func.attr in ('append', 'add') \
                and len(b.value.args) == 1 and not b.value.keywords and not isinstance(b.value.args[0], ast.Starred):
            return b.value.func.value.id, b.value.func.attr
        return None

    def _shape(self, body, temps, stores):
        """is every statement of the block one that can run under a guard"""
        for b in body:
            if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(b)):
                return False
            st = self._store(b)
            if st:
                stores.append((st, b))
            elif isinstance(b, ast.If):
                if not self._shape(b.body, temps, stores) or not self._shape(b.orelse, temps, stores):
                    return False
            elif isinstance(b, ast.For):
                if b.orelse:
                    return False
                b.body = self._continues(b.body)
                if not self._names(b.target, temps, b) or not self._shape(b.body, temps, stores):
                    return False
            elif isinstance(b, ast.Assign) and len(b.targets) == 1 and self._names(b.targets[0], temps, b):
                pass
            elif isinstance(b, ast.Pass) or isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                pass
            else:
                return False
        return True

    @staticmethod
    def _names(t, temps, at):
        ns = t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]
        if not all(isinstance(x, ast.Name) for x in ns):
            return False
        temps.extend((x.id, at) for x in ns)
        return True

    @staticmethod
    def _continues(body):
        """`if test: continue; rest` is `if not test: rest`"""
        for i, b in enumerate(body):
            if isinstance(b, ast.If) and len(b.body) == 1 and isinstance(b.body[0], ast.Continue) and not b.orelse and i + 1 < len(body):
                rest = Tr._continues(body[i + 1:])
                r = ast.copy_location(ast.If(ast.copy_location(ast.UnaryOp(ast.Not(), b.test), b.test), rest, []), b)
                r.end_lineno, r.end_col_offset = rest[-1].end_lineno, rest[-1].end_col_offset
                return body[:i] + [r]
        return body

    def _eligible(self, n, body, target=None):
        """the collections stored into are fresh local ones nobody else refers to before the statement is over"""
        f = self.func[-1] if getattr(self, 'func', None) else None
        if f is None:
            return False
        temps, stores = [], []
        if target is not None and not self._names(target, temps, n):
            return False
        if not self._shape(body, temps, stores) or not any(k in ('item', 'append', 'add') or target is not None for (_, k), _ in stores):
            return False
        inside = set(map(id, ast.walk(n)))
        bases = {id(b.targets[0].value if k == 'item' else b.value.func.value) for (_, k), b in stores if k in ('item', 'append', 'add')}
        for (name, kind), _ in stores:
            if name in f['args'] or name in f['outer']:
                return False
            asg = f['assign'].get(name, [])
            if kind in ('flag', 'count'):
                if not asg or any(not isinstance(v, ast.Constant) for t, v in asg if id(t) not in inside):
                    return False
                continue
            if not asg or any(not self._empty(v) for _, v in asg) or any(id(t) in inside for t, _ in asg):
                return False
            first = min((t.lineno, t.col_offset) for t, _ in asg)
            end = (n.end_lineno, n.end_col_offset)
            loops = [l for l in self.loops if id(l) != id(n)]
            for l in f['loads'].get(name, []):
                if id(l) in f['stores'] or id(l) in bases:
                    continue
                if first < (l.lineno, l.col_offset) < end:
                    return False
                for lp in loops:
                    w = set(map(id, ast.walk(lp)))
                    if id(l) in w and any(id(t) not in w for t, _ in asg):
                        return False
        for name, at in temps:
            if name in f['outer'] or any(name == s for (s, _), _ in stores):
                return False
            # a temporary is only used inside, after it is set
            for l in f['loads'].get(name, []):
                if id(l) not in inside or (l.lineno, l.col_offset) < (at.lineno, at.col_offset):
                    if not any(id(t) not in inside for t, _ in f['assign'].get(name, [])) or id(l) in inside:
                        return False
                    if any(lp is not n and id(l) in set(map(id, ast.walk(lp))) and id(n) in set(map(id, ast.walk(lp))) for lp in self.loops):
                        return False
                    later = [t for t, _ in f['assign'][name] if id(t) not in inside and t.lineno > n.end_lineno and t.lineno <= l.lineno]
                    if (l.lineno, l.col_offset) > (n.end_lineno, n.end_col_offset) and not later:
                        return False
        return True

    @staticmethod
    def _empty(v):
        return isinstance(v, (ast.Dict,)) and not v.keys or isinstance(v, ast.List) and not v.elts or \
            isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('dict', 'set', 'list') and not v.args and not v.keywords

    @staticmethod
    def _scan(fn):
        a = fn.args
        f = {'args': {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]},
             'outer': set(), 'assign': {}, 'loads': {}, 'stores': set()}
        paired = set()
        for x in ast.walk(fn):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                f['outer'] |= set(x.names)
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name) and len(x.targets) == 1:
                        f['assign'].setdefault(t.id, []).append((t, x.value))
                        paired.add(id(t))
                    elif isinstance(t, ast.Tuple) and isinstance(x.value, ast.Tuple) and len(t.elts) == len(x.value.elts) and len(x.targets) == 1:
                        for u, v in zip(t.elts, x.value.elts):
                            if isinstance(u, ast.Name):
                                f['assign'].setdefault(u.id, []).append((u, v))
                                paired.add(id(u))
            if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn:
                b = x.body if isinstance(x.body, list) else [x.body]
                for y in b:
                    f['outer'] |= {z.id for z in ast.walk(y) if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store)}
            st = Tr._store(x) if isinstance(x, (ast.Assign, ast.AugAssign, ast.Expr)) else None
            if st and st[1] == 'item':
                f['stores'].add(id(x.targets[0].value))
            elif st and st[1] in ('append', 'add'):
                f['stores'].add(id(x.value.func.value))
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                f['loads'].setdefault(x.id, []).append(x)
            elif isinstance(x, ast.Name) and id(x) not in paired:
                f['assign'].setdefault(x.id, []).append((x, None))
        return f

    def _block(self, body, base, item):
        out = []
        for b in body:
            st = self._store(b)
            load = lambda nm: ast.Name(nm, ast.Load())
            if st:
                name, kind = st
                if kind == 'item':
                    r = self._h('g_item', load(base), load(name), self.visit(b.targets[0].slice), self.visit(b.value))
                elif kind in ('add', 'append'):
                    r = self._h('g_' + kind, load(base), load(name), self.visit(b.value.args[0]))
                else:
                    new = b.value if kind == 'flag' else ast.BinOp(load(name), ast.Add(), b.value)
                    r = self._h('g_flag', load(base), self._lam0(load(name)), new)
                out.append(ast.Assign([ast.Name(name, ast.Store())], r))
            elif isinstance(b, ast.If):
                out += self._gif(b, base)
            elif isinstance(b, ast.For):
                out += self._gfor(b, base)
            else:
                out.append(self.visit(b))
        return out or [ast.Pass()]

    def _guarded(self, body, var, leave=False):
        handler = ast.ExceptHandler(ast.Name('_sx_Exception', ast.Load()), None, [
            ast.If(ast.Call(ast.Attribute(ast.Name(var, ast.Load()), 'raised', ast.Load()), [], []), [ast.Raise()], [])])
        fin = [ast.Expr(ast.Call(ast.Attribute(ast.Name(var, ast.Load()), 'leave', ast.Load()), [], []))] if leave else []
        return ast.Try(body, [handler], [], fin)

    def _gif(self, n, base):
        v = self._fresh()
        out = [ast.Assign([ast.Name(v, ast.Store())], self._h('g_if', self._lazy(n.test, 't'), ast.Name(base, ast.Load())))]
        for side, body in ((True, n.body), (False, n.orelse)):
            if body:
                out.append(ast.If(ast.Call(ast.Attribute(ast.Name(v, ast.Load()), 'enter', ast.Load()), [ast.Constant(side)], []),
                                  [self._guarded(self._block(body, base, v), v, True)], []))
        return out

    def _gfor(self, n, base):
        v = self._fresh()
        self.loops.append(n)
        body = [ast.Assign([n.target], ast.Attribute(ast.Name(v, ast.Load()), 'x', ast.Load()))]
        body += self._block(n.body, base or v, v)
        loop = ast.For(ast.Name(v, ast.Store()), self._h('g_iter', self.visit(n.iter)), [self._guarded(body, v)], [])
        self.loops.pop()
        return [loop]

    def visit_For(self, n):
        if self.fn and not n.orelse:
            n.body = self._continues(n.body)
            if self._eligible(n, n.body, n.target):
                GUARDED.append((self.func[-1]['name'], n.lineno))
                return self._gfor(n, None)
        self.loops.append(n)
        self.generic_visit(n)
        self.loops.pop()
        return n

    def visit_While(self, n):
        self.loops.append(n)
        self.generic_visit(n)
        self.loops.pop()
        return n

    def visit_If(self, n):
        """`if test: x = set expression` is merged instead of forked when x is a set"""
        b = n.body[0]
        if self.fn and len(n.body) == 1 and not n.orelse and isinstance(b, (ast.Assign, ast.AugAssign)):
            t = b.target if isinstance(b, ast.AugAssign) else (b.targets[0] if len(b.targets) == 1 else None)
            if isinstance(t, ast.Name) and (isinstance(b, ast.Assign) or isinstance(b.op, (ast.BitOr, ast.Sub, ast.BitAnd))):
                e = b.value
                if isinstance(b, ast.AugAssign):
                    e = ast.BinOp(ast.Name(t.id, ast.Load()), b.op, b.value)
                if self._pure(e) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(n.test)):
                    load = lambda nm: ast.Name(nm, ast.Load())
                    test = ast.Assign([ast.Name('_sx_c', ast.Store())], self._lazy(n.test, 't'))
                    merged = ast.Assign([ast.Name(t.id, ast.Store())],
                                        self._h('ifm', load('_sx_c'), self._lam0(self.visit(_cp(e))), load(t.id)))
                    plain = ast.If(load('_sx_c'), [self.visit(b)], [])
                    return [test, ast.If(self._h('canm', load('_sx_c'), self._lam0(load(t.id))), [merged], [plain])]
        if self.fn and self._eligible(n, [n]):
            GUARDED.append((self.func[-1]['name'], n.lineno))
            v = self._fresh()
            return [ast.Assign([ast.Name(v, ast.Store())], self._h('g_base'))] + self._gif(n, v)
        self.generic_visit(n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant('')
                conv = ast.Constant(chr(v.conversion) if v.conversion and v.conversion > 0 else None)
                parts.append(ast.Tuple([self.visit(v.value), spec, conv], ast.Load()))
            else:
                parts.append(v)
        return self._h('fstr', *parts)

    def _lazy(self, e, p=''):
        """and/or inside comprehension conditions, without forking"""
        if isinstance(e, ast.BoolOp):
            r = self._lazy(e.values[0], p)
            for v in e.values[1:]:
                r = self._h(p + ('and' if isinstance(e.op, ast.And) else 'or'), self._lam0(r), self._lam0(self._lazy(v, p)))
            return r
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self._h('not', self._lazy(e.operand, p))
        return self.visit(e)

    @staticmethod
    def _lam0(e):
        return ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)

    def _comp(self, n, kind, elt):
        has_walrus = any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(n))
        ok = len(n.generators) == 1 and not n.generators[0].is_async and not has_walrus
        if not ok or (self.cls and not self.fn):
            self.generic_visit(n)
            return n
        g = n.generators[0]
        it = self.visit(g.iter)
        names = []
        tgt = g.target

        def lam(body):
            if isinstance(tgt, ast.Name):
                return ast.Lambda(ast.arguments([], [ast.arg(tgt.id)], None, [], [], None, []), body)
            # destructuring target: (lambda t: [body for target in [t]][0])
            inner = ast.ListComp(body, [ast.comprehension(tgt, ast.List([ast.Name('_sx_t', ast.Load())], ast.Load()),
                                                          [], 0)])
            return ast.Lambda(ast.arguments([], [ast.arg('_sx_t')], None, [], [], None, []),
                              ast.Subscript(inner, ast.Constant(0), ast.Load()))
        self.fn += 1
        body = lam(elt())
        cond = ast.Constant(None)
        if g.ifs:
            e = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            cond = lam(self._lazy(e))
        self.fn -= 1
        return self._h('comp', ast.Constant(kind), it, body, cond)

    def visit_ListComp(self, n):
        return self._comp(n, 'list', lambda: self.visit(n.elt))

    def visit_SetComp(self, n):
        return self._comp(n, 'set', lambda: self.visit(n.elt))

    def visit_GeneratorExp(self, n):
        return self._comp(n, 'lazy', lambda: self.visit(n.elt))

    def visit_DictComp(self, n):
        return self._comp(n, 'dict', lambda: ast.Tuple([self.visit(n.key), self.visit(n.value)], ast.Load()))

    def visit_Assert(self, n):
        self.generic_visit(n)
        return n


def any_all_eager(tree):
    """generator arguments of any/all/set/... are evaluated without forking"""
    eager = {'any', 'all', 'sum', 'sorted', 'set', 'list', 'tuple', 'dict', 'max', 'min'}
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in eager:
            for i, a in enumerate(n.args):
                if isinstance(a, ast.GeneratorExp):
                    n.args[i] = ast.copy_location(ast.ListComp(a.elt, a.generators), a)
    return tree


HELPERS = {'_sx_call': M.call, '_sx_in': M.s_in, '_sx_not_in': M.s_not_in, '_sx_is': M.s_is,
           '_sx_is_not': M.s_is_not, '_sx_not': M.s_not, '_sx_mod': M.s_mod, '_sx_get': M.s_getitem, '_sx_set': M.s_setitem,
           '_sx_fstr': M.s_fstr, '_sx_comp': M.comp, '_sx_and': M.s_and, '_sx_or': M.s_or,
           '_sx_tand': M.s_tand, '_sx_tor': M.s_tor, '_sx_ifm': M.s_ifm, '_sx_canm': M.s_canm, '_sx_g_item': M.g_item, '_sx_g_add': M.g_add, '_sx_g_append': M.g_append,
           '_sx_g_flag': M.g_flag, '_sx_g_if': M.g_if, '_sx_g_iter': M.g_iter, '_sx_g_base': M.g_base, '_sx_Exception': Exception}


class Lib:
    """one instrumented copy of the package"""

    def __init__(self, repo=None, fakes=None):
        self.repo = repo or REPO
        self.mods = {}
        self.fakes = fakes or {}
        self.sources = {}
        self.builtins = dict(vars(builtins))
        self.builtins['__import__'] = self._import

    def _path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None, False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parent = None
        if '.' in name:
            parent = self.load(name.rpartition('.')[0])
            if name in self.mods:
                return self.mods[name]
        path, pkg = self._path(name)
        if path is None:
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        src = open(path, encoding='utf-8').read()
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        g = m.__dict__
        g['__builtins__'] = self.builtins
        rel = os.path.relpath(path, self.repo)
        tree = Tr().visit(any_all_eager(ast.parse(src, path)))
        ast.fix_missing_locations(tree)
        g.update(HELPERS)
        mod_short = name.split('.')[-1]

        def enter(fn, _m=mod_short):
            c = CUR.ctx
            if c is not None:
                c.stats.functions.add(_m + '.' + fn)
        g['_sx_enter'] = enter
        self.mods[name] = m
        try:
            exec(compile(tree, path, 'exec'), g)
        except BaseException:
            del self.mods[name]
            raise
        if parent is not None:
            setattr(parent, name.rpartition('.')[2], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - (level - 1)])
            name = base + ('.' + name if name else '')
        top = name.split('.')[0]
        if top in self.fakes:
            return self.fakes[top]
        if top != 'pydarnio':
            return builtins.__import__(name, globals, locals, fromlist, 0)
        m = self.load(name)
        if fromlist:
            for f in fromlist:
                if f != '*' and not hasattr(m, f):
                    try:
                        self.load(name + '.' + f)
                    except ModuleNotFoundError:
                        pass
            return m
        return self.load(top)
