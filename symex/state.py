"""State the package keeps between calls (module and class attributes, default
arguments, caches): put back before every path and every replay, so that none
of them depends on what ran before it in this process."""
import collections
import types
import numpy as np

BOX = (dict, list, set, collections.deque, bytearray)


class State:
    def __init__(self, mods):
        self.n = len(mods)
        self.seen = {}
        self.spaces = []        # (object, its attributes)
        self.boxes = []         # (container, contents)
        self.caches = []
        self.funcs = []
        for m in mods:
            self.space(m)

    def space(self, o):
        if id(o) in self.seen:
            return
        self.seen[id(o)] = o
        d = {k: v for k, v in vars(o).items() if not (k.startswith('__') and k.endswith('__')) and not k.startswith('_sx_')}
        self.spaces.append((o, d))
        for v in d.values():
            self.value(v)

    def value(self, v, depth=0):
        if isinstance(v, (types.ModuleType,)) or depth > 6:
            return
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            for f in (v.fget, v.fset):
                if f is not None:
                    self.value(f, depth + 1)
            return
        mod = getattr(v, '__module__', None)
        ours = isinstance(mod, str) and mod.split('.')[0] == 'pydarnio'
        if isinstance(v, type):
            if ours:
                self.space(v)
            return
        if id(v) in self.seen:
            return
        if isinstance(v, types.FunctionType):
            self.seen[id(v)] = v
            self.funcs.append((v, v.__defaults__, v.__kwdefaults__))
            for x in list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values()):
                self.value(x, depth + 1)
            for c in v.__closure__ or ():
                try:
                    self.value(c.cell_contents, depth + 1)
                except ValueError:
                    pass
            w = getattr(v, '__wrapped__', None)
            if w is not None:
                self.value(w, depth + 1)
            return
        if hasattr(v, 'cache_clear'):
            self.seen[id(v)] = v
            self.caches.append(v)
            return
        if isinstance(v, BOX):
            self.seen[id(v)] = v
            self.boxes.append((v, dict(v) if isinstance(v, dict) else list(v)))
            if not isinstance(v, bytearray):
                for x in (list(v.values()) if isinstance(v, dict) else list(v)):
                    self.value(x, depth + 1)
            return
        if isinstance(v, tuple):
            for x in v:
                self.value(x, depth + 1)
            return
        if isinstance(v, np.ndarray):
            self.seen[id(v)] = v
            if v.dtype.kind != 'O':
                self.boxes.append((v, v.copy()))
            return
        if ours and hasattr(v, '__dict__'):
            self.space(v)

    def restore(self):
        for o, d in self.spaces:
            now = vars(o)
            for k, v in d.items():
                if now.get(k, self) is not v:
                    setattr(o, k, v)
            if len(now) > len(d):
                for k in [k for k in now if k not in d]:
                    if not (k.startswith('__') and k.endswith('__')) and not k.startswith('_sx_') and \
                            not isinstance(now[k], types.ModuleType):
                        delattr(o, k)
        for v, c in self.boxes:
            if isinstance(v, np.ndarray):
                if v.flags.writeable:
                    v[...] = c
                continue
            same = len(v) == len(c)
            if same:
                if isinstance(v, dict):
                    same = all(a is b and v[a] is c[b] for a, b in zip(v, c))
                elif isinstance(v, set):
                    same = v == set(c)
                elif isinstance(v, bytearray):
                    same = list(v) == c
                else:
                    same = all(a is b for a, b in zip(v, c))
            if not same:
                v.clear()
                if isinstance(v, (dict, set)):
                    v.update(c)
                else:
                    v.extend(c)
        for f, a, k in self.funcs:
            if f.__defaults__ is not a:
                f.__defaults__ = a
            if f.__kwdefaults__ is not k:
                f.__kwdefaults__ = k
        for c in self.caches:
            c.cache_clear()


_kept = {}


def fresh(key, mods):
    """the package state is as it was when first seen"""
    mods = list(mods)
    s = _kept.get(key)
    if s is None or s.n != len(mods):
        if s is not None:
            s.restore()
        _kept[key] = s = State(mods)
    s.restore()
