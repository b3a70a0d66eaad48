"""Values, lvalues and program states of the symbolic executor."""
from terms import *
import terms as TM

class Unsupported(Exception):
    pass

class V:  # marker base for non-term values
    __slots__ = ()

class Rec(V):
    __slots__ = ('t', 'f')
    def __init__(self, t, f): self.t = t; self.f = f
    def __repr__(self): return '%s%r' % (self.t, self.f)
    def with_(self, n, v):
        d = dict(self.f); d[n] = v
        return Rec(self.t, d)
class Vec(V):
    """std::vector: len, e = element value lifted over the index"""
    __slots__ = ('n', 'e', 'et')
    def __init__(self, n, e, et=None): self.n = n; self.e = e; self.et = et
    def __repr__(self): return 'Vec(%r,%r)' % (self.n, self.e)
class SetV(V):
    """std::set<int>: membership predicate m (lam), cardinality n (term)"""
    __slots__ = ('m', 'n')
    def __init__(self, m, n): self.m = m; self.n = n
    def __repr__(self): return 'Set(%r)' % (self.m,)
class MapV(V):
    """std::map: domain predicate d (lam over keys), lifted value v, size n"""
    __slots__ = ('d', 'v', 'n')
    def __init__(self, d, v, n): self.d = d; self.v = v; self.n = n
    def __repr__(self): return 'Map(%r,%r)' % (self.d, self.v)
class Ref(V):
    """lvalue: root + steps. steps: str field | ('ix', T)"""
    __slots__ = ('root', 'steps')
    def __init__(self, root, steps=()): self.root = root; self.steps = tuple(steps)
    def __repr__(self): return 'Ref(%s%s)' % (self.root, ''.join('.%s' % s if isinstance(s, str) else '[%r]' % s[1] for s in self.steps))
    def sub(self, *st): return Ref(self.root, self.steps + st)
    def __eq__(self, o): return isinstance(o, Ref) and self.root == o.root and self.steps == o.steps
    def __hash__(self): return hash((self.root, self.steps))
class Ptr(V):
    """pointer into an array: base Ref (designates an array value) + offset"""
    __slots__ = ('base', 'off')
    def __init__(self, base, off): self.base = base; self.off = off
    def __repr__(self): return 'Ptr(%r+%r)' % (self.base, self.off)
    def __eq__(self, o): return isinstance(o, Ptr) and self.base == o.base and self.off is o.off
    def __hash__(self): return hash((self.base, self.off))
class ObjPtr(V):
    """pointer (raw or smart) to an object"""
    __slots__ = ('ref',)
    def __init__(self, ref): self.ref = ref
    def __repr__(self): return 'ObjPtr(%r)' % (self.ref,)
    def __eq__(self, o): return isinstance(o, ObjPtr) and self.ref == o.ref
    def __hash__(self): return hash(self.ref)
class Null(V):
    __slots__ = ()
    def __repr__(self): return 'null'
    def __eq__(self, o): return isinstance(o, Null)
    def __hash__(self): return 7
class View(V):
    """Kokkos::View handle: buffer Ref (nested lam), dims per buffer axis ('f',T) fixed | ('a',off) free, ext per free axis"""
    __slots__ = ('buf', 'dims', 'ext')
    def __init__(self, buf, dims, ext): self.buf = buf; self.dims = tuple(dims); self.ext = tuple(ext)
    def __repr__(self): return 'View(%r,%r,%r)' % (self.buf, self.dims, self.ext)
    def at(self, idx):
        it = iter(idx)
        st = []
        for kind, t in self.dims:
            if kind == 'f': st.append(('ix', t))
            else: st.append(('ix', add(t, next(it))))
        return Ref(self.buf.root, self.buf.steps + tuple(st))
    def __eq__(self, o): return isinstance(o, View) and self.buf == o.buf and self.dims == o.dims and self.ext == o.ext
    def __hash__(self): return hash((self.buf, self.dims))
class Clo(V):
    __slots__ = ('fid', 'env', 'this', 'prog', 'caps')
    def __init__(self, fid, env, this, prog): self.fid = fid; self.env = env; self.this = this; self.prog = prog
    def __repr__(self): return 'Clo(%s)' % self.fid
class Opq(V):
    __slots__ = ('tag', 'data')
    def __init__(self, tag, data=None): self.tag = tag; self.data = data
    def __repr__(self): return 'Opq(%s)' % self.tag
class Undef(V):
    __slots__ = ()
    def __repr__(self): return 'undef'
    def __eq__(self, o): return isinstance(o, Undef)
    def __hash__(self): return 9
UNDEF = Undef()
class Poison(V):
    """a handle whose value on loop entry is not tracked: the loop rebinds it in every iteration before use"""
    __slots__ = ()
    def __repr__(self): return 'poison'
    def __eq__(self, o): return isinstance(o, Poison)
    def __hash__(self): return 10
    def __getattr__(self, n):
        if n.startswith('__') or n == 'vmap': raise AttributeError(n)
        raise Unsupported('use of a view handle that a loop left unbound')
POISON = Poison()

# ------------------------------------------------------------------ tree maps
def vmap(f, v):
    """apply f to every term leaf"""
    if isinstance(v, T): return f(v)
    if hasattr(v, 'vmap'): return v.vmap(f)
    if isinstance(v, Rec): return Rec(v.t, {k: vmap(f, x) for k, x in v.f.items()})
    if isinstance(v, Vec): return Vec(f(v.n), vmap(f, v.e) if v.e is not None else None, v.et)
    if isinstance(v, SetV): return SetV(f(v.m), f(v.n))
    if isinstance(v, MapV): return MapV(f(v.d), vmap(f, v.v), f(v.n))
    if isinstance(v, View): return View(rmap(f, v.buf), [(k, f(t)) for k, t in v.dims], [f(t) for t in v.ext])
    if isinstance(v, Ptr): return Ptr(rmap(f, v.base), f(v.off))
    if isinstance(v, ObjPtr): return ObjPtr(rmap(f, v.ref))
    if isinstance(v, Ref): return rmap(f, v)
    if isinstance(v, Clo):
        c = Clo(v.fid, {k: (vmap(f, x) if isinstance(x, (V, T)) else x) for k, x in v.env.items()}, v.this, v.prog)
        return c
    return v
def rmap(f, r):
    if r is None: return None
    return Ref(r.root, [s if isinstance(s, str) else (s[0], f(s[1])) for s in r.steps])

def same(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, T): return False
    if isinstance(a, Rec): return a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Vec): return a.n is b.n and same(a.e, b.e)
    if isinstance(a, SetV): return a.m is b.m and a.n is b.n
    if isinstance(a, MapV): return a.d is b.d and same(a.v, b.v) and a.n is b.n
    if isinstance(a, Clo): return a.fid == b.fid and a.env.keys() == b.env.keys() and all(same(a.env[k], b.env[k]) for k in a.env)
    if isinstance(a, Opq): return a.tag == b.tag
    return a == b

def lift(v, w):
    return vmap(lambda t: lam(w, t), v)
def unlift(v, i):
    return vmap(lambda t: lapp(t, i), v)

class NeedSplit(Exception):
    """a handle that differs between branches is used: the unit is verified once per case of the condition"""
    def __init__(self, c): Exception.__init__(self, 'case split on %r' % (c,)); self.c = c
SPLIT = dict(known={}, hyps=None)
def merged(c, a, b):
    k = repr(c)
    if k in SPLIT['known']:
        v = SPLIT['known'][k]
        h = c if v else not_(c)
        if SPLIT['hyps'] is not None and h not in SPLIT['hyps']: SPLIT['hyps'].append(h)
        return a if v else b
    return Opq('merged', (c, a, b))
def vite(c, a, b):
    """merge two values under condition c"""
    if a is b: return a
    if c is TRUE: return a
    if c is FALSE: return b
    if isinstance(a, T) and isinstance(b, T):
        if a.s != b.s:
            if a.s == 'I' and b.s == 'R': a = toreal(a)
            elif a.s == 'R' and b.s == 'I': b = toreal(b)
            elif a.s == 'L' or b.s == 'L': pass
            else: raise Unsupported('merge sorts %s %s' % (a.s, b.s))
        return ite(c, a, b)
    if isinstance(a, Poison) or isinstance(b, Poison): return POISON
    if isinstance(a, Undef): return b
    if isinstance(b, Undef): return a
    if type(a) is not type(b):
        if same(a, b): return a
        return merged(c, a, b)
    if isinstance(a, Rec): return Rec(a.t, {k: vite(c, a.f[k], b.f[k]) for k in a.f if k in b.f})
    if isinstance(a, Vec):
        if a.e is None: return Vec(vite(c, a.n, b.n), b.e, b.et)
        if b.e is None: return Vec(vite(c, a.n, b.n), a.e, a.et)
        return Vec(vite(c, a.n, b.n), vite(c, a.e, b.e), a.et)
    if isinstance(a, SetV): return SetV(vite(c, a.m, b.m), vite(c, a.n, b.n))
    if isinstance(a, MapV): return MapV(vite(c, a.d, b.d), vite(c, a.v, b.v), vite(c, a.n, b.n))
    if isinstance(a, View) and not hasattr(a, 'str') and a.buf == b.buf and len(a.dims) == len(b.dims) and all(x[0] == y[0] for x, y in zip(a.dims, b.dims)):
        return View(a.buf, [(x[0], ite(c, x[1], y[1])) for x, y in zip(a.dims, b.dims)], [ite(c, x, y) for x, y in zip(a.ext, b.ext)])
    if isinstance(a, Ptr) and a.base == b.base: return Ptr(a.base, ite(c, a.off, b.off))
    if same(a, b): return a
    return merged(c, a, b)

class State:
    __slots__ = ('store', 'pc', 'ghost')
    def __init__(self, store=None, pc=(), ghost=None):
        self.store = store if store is not None else {}
        self.pc = tuple(pc)
        self.ghost = ghost if ghost is not None else {}
    def clone(self): return State(dict(self.store), self.pc, dict(self.ghost))
    def assume(self, c):
        if c is TRUE: return self
        if c.op == 'and':
            for x in c.a: self.assume(x)
            return self
        if c in self.pc: return self
        self.pc = self.pc + (c,)
        return self
    def dead(self): return FALSE in self.pc
    def become(self, o):
        self.store = o.store; self.pc = o.pc; self.ghost = o.ghost

def merge(states):
    states = [s for s in states if s is not None and not s.dead()]
    if not states: return None
    if len(states) == 1: return states[0]
    # common prefix
    n = min(len(s.pc) for s in states)
    p = 0
    while p < n and all(s.pc[p] is states[0].pc[p] for s in states): p += 1
    conds = [and_(*s.pc[p:]) if len(s.pc) > p else TRUE for s in states]
    pre = states[0].pc[:p]
    r = states[-1].clone()
    r.pc = pre
    r.assume(or_(*conds))
    for s, c in zip(reversed(states[:-1]), reversed(conds[:-1])):
        for k in list(r.store):
            if k not in s.store:
                if not isinstance(k, str): del r.store[k]
                continue
            a, b = s.store[k], r.store[k]
            if a is not b and not same(a, b): r.store[k] = vite(c, a, b)
        for k in s.store:
            if k not in r.store and isinstance(k, str): r.store[k] = s.store[k]        # storage allocated in one branch only
        for k in list(r.ghost):
            if k not in s.ghost: del r.ghost[k]; continue
            a, b = s.ghost[k], r.ghost[k]
            if a is not b:
                if isinstance(a, (T, V)) and isinstance(b, (T, V)):
                    if not same(a, b): r.ghost[k] = vite(c, a, b)
                elif a != b: del r.ghost[k]
    return r

# ------------------------------------------------------------------ reading / writing
DERIVED = {}     # class known by an identity only -> its fields as functions of that identity
def rd(v, steps):
    for n, s in enumerate(steps):
        if isinstance(v, Poison): raise Unsupported('use of a view handle that a loop left unbound')
        if isinstance(v, Opq) and v.tag == 'merged':
            c, a, b = v.data
            return vite(c, rd(a, steps[n:]), rd(b, steps[n:]))
        if isinstance(s, str):
            if isinstance(v, Rec):
                if s not in v.f:
                    if v.t in DERIVED and '$id' in v.f: v = DERIVED[v.t](v, s); continue
                    raise Unsupported('field %s of %s' % (s, v.t))
                v = v.f[s]
            elif isinstance(v, Vec) and s == '#n': v = v.n
            elif isinstance(v, Vec) and s == '#e': v = v.e
            else: raise Unsupported('read field %s of %r' % (s, type(v)))
        else:
            i = s[1]
            if isinstance(v, Vec):
                if v.e is None: raise Unsupported('read of empty vector')
                v = unlift(v.e, i)
            elif isinstance(v, MapV): v = unlift(v.v, i)
            elif isinstance(v, T): v = lapp(v, i)
            elif isinstance(v, (Rec, View, Ptr, SetV, ObjPtr)): v = unlift(v, i)   # lifted aggregate
            else: raise Unsupported('index into %r' % (v,))
    return v

def wr(v, steps, x):
    if not steps: return x
    s = steps[0]
    if isinstance(v, Opq) and v.tag == 'merged':
        c, a, b = v.data
        return Opq('merged', (c, wr(a, steps, x), wr(b, steps, x)))
    if isinstance(s, str):
        if isinstance(v, Rec): return v.with_(s, wr(v.f.get(s), steps[1:], x))
        if isinstance(v, Vec) and s == '#n': return Vec(x, v.e, v.et)
        if isinstance(v, Vec) and s == '#e': return Vec(v.n, wr(v.e, steps[1:], x), v.et)
        raise Unsupported('write field %s of %r' % (s, v))
    i = s[1]
    if isinstance(v, Vec):
        return Vec(v.n, wr_lift(v.e, i, steps[1:], x), v.et)
    if isinstance(v, MapV):
        return MapV(v.d, wr_lift(v.v, i, steps[1:], x), v.n)
    return wr_lift(v, i, steps[1:], x)
def wr_lift(e, i, rest, x):
    """e lifted over index; write x at index i (then rest steps)"""
    if e is None:
        w = fresh('w', i.s)
        return lift(x, w)
    w = fresh('w', i.s)
    old = unlift(e, w)
    cur = unlift(e, i)
    new = wr(cur, rest, x)
    return lift(vite(eq(w, i), new, old), w)
