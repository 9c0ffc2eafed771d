import numpy as np

class Options(dict):
    def __init__(self):
        super().__init__(); self.known = {}
    def declare(self, name, default=KeyError, types=None, values=None, desc="", recordable=True, **kw):
        self.known[name] = (types, values, default)
        if default is not KeyError:
            self[name] = default
    def set(self, name, value):
        if name not in self.known:
            raise KeyError("option '%s' has not been declared" % name)
        types, values, default = self.known[name]
        if types is not None and not isinstance(value, types) and not (value is None and default is None):
            raise TypeError("option '%s' has the wrong type" % name)
        if values is not None and value not in values:
            raise ValueError("option '%s' has a value out of range" % name)
        self[name] = value
    def __getitem__(self, name):
        if name not in self:
            raise RuntimeError("option '%s' is required but has not been set" % name)
        return super().__getitem__(name)

class Vector:
    """contiguous slices of one array, as OpenMDAO's, with unused entries in between that nobody may touch"""
    GAP, MARK = 3, 6.02214076e23
    def __init__(self, values):
        self.pos, at = {}, self.GAP
        for k, v in values.items():
            n = np.size(v); self.pos[k] = (at, n); at += n + self.GAP
        self.data = np.full(at, self.MARK)
        self.free = np.ones(at, bool)
        for k, v in values.items():
            a, n = self.pos[k]; self.data[a:a + n] = v; self.free[a:a + n] = False
    def intact(self):
        return bool(np.all(self.data[self.free] == self.MARK))
    def __getitem__(self, k):
        a, n = self.pos[k]; return self.data[a:a + n]
    def __setitem__(self, k, v):
        a, n = self.pos[k]; self.data[a:a + n] = v
    def __contains__(self, k): return k in self.pos
    def __iter__(self): return iter(self.pos)
    def __len__(self): return len(self.pos)
    def get(self, k, default=None): return self[k] if k in self.pos else default
    def keys(self): return self.pos.keys()
    def values(self): return [self[k] for k in self.pos]
    def items(self): return [(k, self[k]) for k in self.pos]

class System:
    def __init__(self, **kw):
        self.options, self.ins, self.outs, self.comm = Options(), {}, {}, None
        self.initialize()
        for k, v in kw.items():
            self.options.set(k, v)
    def initialize(self): pass
    def setup(self): pass

class Component(System):
    @staticmethod
    def _var(val, shape, distributed=False, shape_by_conn=False, tags=None, desc="", ref=1.0, units=None, **kw):
        if kw:
            raise TypeError("unexpected arguments: " + str(list(kw)))
        if val is None and shape is None and not shape_by_conn:
            val = 1.0
        return dict(val=np.ones(shape) if val is None and shape is not None else val if val is None else np.array(np.atleast_1d(val), float), tags=[tags] if isinstance(tags, str) else list(tags or []))
    def add_input(self, name, val=None, shape=None, **kw):
        if name in self.ins or name in self.outs: raise ValueError("'%s' already exists" % name)
        self.ins[name] = self._var(val, shape, **kw)
    def add_output(self, name, val=None, shape=None, **kw):
        if name in self.ins or name in self.outs: raise ValueError("'%s' already exists" % name)
        self.outs[name] = self._var(val, shape, **kw)
class ImplicitComponent(Component): pass
class ExplicitComponent(Component): pass
class IndepVarComp(Component): pass

class Group(System):
    def add_subsystem(self, name, sub, promotes_inputs=None, promotes_outputs=None, promotes=None):
        if not hasattr(self, "subs"): self.subs = []
        if any(s[0] == name for s in self.subs): raise ValueError("subsystem '%s' already exists" % name)
        self.subs.append((name, sub, list(promotes_inputs or []) + [p for p in promotes or [] if (p[0] if isinstance(p, tuple) else p) in self._inner(sub)[0]], list(promotes_outputs or []) + [p for p in promotes or [] if (p[0] if isinstance(p, tuple) else p) in self._inner(sub)[1]])); return sub
    @staticmethod
    def _inner(sub): sub.setup(); i, o = set(sub.ins), set(sub.outs); sub.ins, sub.outs = {}, {}; return i, o
