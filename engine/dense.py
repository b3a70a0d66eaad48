"""Assumed contracts for flat strided views and for the Eigen library: maps, references, expressions, triangular
views and the two factorisations.  An Eigen expression is the pair of its extents and its element function over
the values its operands hold when it is formed."""
from terms import *
import terms as TM
from vals import *
import vals, libmodel
from libmodel import LIB, LIBCLS, lib, cls, V_, vw, stride, layout_of

class SView(View):
    """array view over flat memory: element idx lives at base[off + sum idx*str]"""
    __slots__ = ('off', 'str')
    def __init__(self, buf, off, ext, str_):
        View.__init__(self, buf, (), ext); self.off = off; self.str = tuple(str_)
    def __repr__(self): return 'SView(%r+%r,%r,%r)' % (self.buf, self.off, self.ext, self.str)
    def addr(self, idx):
        t = self.off
        for i, s in zip(idx, self.str): t = add(t, mul(i, s))
        return t
    def at(self, idx): return self.buf.sub(('ix', self.addr(idx)))
    def __eq__(self, o): return isinstance(o, SView) and self.buf == o.buf and self.off is o.off and self.ext == o.ext and self.str == o.str
    def __hash__(self): return hash((self.buf, self.off, self.str))
    def vmap(self, f): return SView(rmap(f, self.buf), f(self.off), [f(t) for t in self.ext], [f(t) for t in self.str])
class DataOf(V):
    """address of the first element of a view whose memory is not modelled as flat"""
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
    def vmap(self, f): return DataOf(vmap(f, self.v))
class EMap(V):
    """Eigen::Map / Eigen::Ref: an alias of the elements of a view"""
    __slots__ = ('v', 'inner', 'outer')
    def __init__(self, v, inner=None, outer=None): self.v = v; self.inner = inner; self.outer = outer
    def rows(self): return self.v.ext[0]
    def cols(self): return self.v.ext[1] if len(self.v.ext) > 1 else I(1)
    def vmap(self, f): return EMap(vmap(f, self.v), self.inner and f(self.inner), self.outer and f(self.outer))
class EM(V):
    """Eigen expression or matrix value"""
    __slots__ = ('r', 'c', 'fn', 'al')
    def __init__(self, r, c, fn, al=()): self.r = r; self.c = c; self.fn = fn; self.al = tuple(al)
    def rows(self): return self.r
    def cols(self): return self.c
    def vmap(self, f): raise Unsupported('a matrix expression is carried through a loop')
class Fact(V):
    """a factorisation object: the matrix it was computed from and its factors"""
    __slots__ = ('kind', 'n', 'A', 'L', 'U', 'perm', 'det')
    def vmap(self, f): raise Unsupported('a factorisation is carried through a loop')
class Tri(V):
    """triangular view of a factor"""
    __slots__ = ('n', 'fn', 'what', 'det')
    def __init__(self, n, fn, what, det=None): self.n = n; self.fn = fn; self.what = what; self.det = det
    def vmap(self, f): raise Unsupported('a triangular view is carried through a loop')
class Perm(V):
    __slots__ = ('n', 'inv')
    def __init__(self, n, inv): self.n = n; self.inv = inv
    def vmap(self, f): raise Unsupported('a permutation is carried through a loop')

# ------------------------------------------------------------------ flat views
def nonneg(ex, st, t): return t
def flat_view(ex, st, p, ext, lay, c):
    e = ex.extent_of(p.base, st)
    n = I(1)
    for x in ext: n = mul(n, x)
    if e is not None and ex.bounds: ex.oblige('bounds', st, le(add(p.off, n), e), c.loc, 'unmanaged view lies inside the wrapped storage')
    strs = []
    for q in range(len(ext)):
        t = I(1)
        for x in (ext[:q] if lay == 'L' else ext[q + 1:]): t = mul(t, x)
        strs.append(t)
    return SView(p.base, p.off, ext, strs)
libmodel.flat_view = flat_view
def lstride(ex, st, c):
    a = [ex.val(st, x) for x in c.args]
    return Rec('Kokkos::LayoutStride', {'a%d' % i: x for i, x in enumerate(a) if isinstance(x, T)})
LIBCLS['Kokkos::LayoutStride'] = dict(ctor=lstride)
_view_ctor = LIBCLS['Kokkos::View']['ctor']
def view_ctor(ex, st, c):
    a = [ex.val(st, x) for x in c.args]
    if len(a) > 1 and isinstance(a[0], Ptr) and isinstance(a[1], Rec) and a[1].t == 'Kokkos::LayoutStride':
        ty = c.t if c.t is not None and c.t['k'] == 'rec' else c.fr.prog.types[c.f['cls']]
        r, _ = libmodel.view_info(ty, c.fr.prog)
        return SView(a[0].base, a[0].off, [a[1].f['a%d' % (2 * q)] for q in range(r)], [a[1].f['a%d' % (2 * q + 1)] for q in range(r)])
    return _view_ctor(ex, st, c)
LIBCLS['Kokkos::View']['ctor'] = view_ctor
_stride = libmodel.stride
def stride_(ex, v, q):
    return v.str[q] if isinstance(v, SView) else _stride(ex, v, q)
libmodel.stride = stride_
@cls('Kokkos::View', 'stride')
def _(ex, st, c):
    v = vw(ex, st, c); a = V_(ex, st, c, 0)
    if isinstance(a, T):
        if not isnum(a): raise Unsupported('symbolic stride index')
        return stride_(ex, v, int(val(a)))
    if isinstance(a, ObjPtr): ex.store(st, a.ref, stride_(ex, v, 0)); return UNDEF
    if isinstance(a, Ptr):
        for q in range(len(v.ext)): ex.store(st, a.base.sub(('ix', add(a.off, I(q)))), stride_(ex, v, q))
        return UNDEF
    raise Unsupported('stride(%r)' % (a,))
_data = LIBCLS['Kokkos::View']['data']
@cls('Kokkos::View', 'data')
def _(ex, st, c):
    v = vw(ex, st, c)
    if isinstance(v, SView): return Ptr(v.buf, v.off)
    if len(v.dims) == 1 and len(v.ext) == 1: return _data(ex, st, c)
    return DataOf(v)
_sub = LIB['Kokkos::subview']
@lib('Kokkos::subview')
def _(ex, st, c):
    v = V_(ex, st, c, 0)
    if not isinstance(v, SView): return _sub(ex, st, c)
    off = v.off; ext = []; strs = []
    for a, e, s in zip([ex.val(st, a) for a in c.args[1:]], v.ext, v.str):
        if isinstance(a, Rec):
            lo, hi = a.f['first'], a.f['second']
            if ex.bounds: ex.oblige('bounds', st, and_(ge(lo, I(0)), le(lo, hi), le(hi, e)), c.loc, 'subview range within extents')
            off = add(off, mul(lo, s)); ext.append(sub(hi, lo)); strs.append(s)
        elif isinstance(a, T):
            if ex.bounds: ex.oblige('bounds', st, and_(ge(a, I(0)), lt(a, e)), c.loc, 'subview index within extents')
            off = add(off, mul(a, s))
        else: ext.append(e); strs.append(s)
    return SView(v.buf, off, ext, strs)
@lib('std::get')
def _(ex, st, c):
    k = c.f['ta'][0]['int']; o = c.args[0]
    if isinstance(o, Ref):
        r = o.sub(str(k)); return r if c.fr.prog.types[c.f['ret']]['k'] == 'ref' else ex.load(st, r)
    return o.f[str(k)]

# ------------------------------------------------------------------ Eigen
def strides_ctor(ex, st, c):
    a = [ex.val(st, x) for x in c.args]
    tn = c.t['tn']; ta = [x.get('int') for x in c.t.get('ta', [])]
    if tn == 'Eigen::OuterStride': o, i = (a[0] if a else I(int(ta[0]))), I(0)
    elif tn == 'Eigen::InnerStride': o, i = I(0), (a[0] if a else I(int(ta[0])))
    else: o, i = (a + [I(int(x)) for x in ta])[:2] if len(a) == 2 else (I(int(ta[0])), I(int(ta[1])))
    return Rec('Eigen::Stride', dict(outer=o, inner=i))
for tn in ('Eigen::Stride', 'Eigen::OuterStride', 'Eigen::InnerStride'): LIBCLS[tn] = dict(ctor=strides_ctor)
def mat_type(prog, ty):
    m = prog.types[ty['ta'][0]['ty']] if ty['tn'] in ('Eigen::Map', 'Eigen::Ref') else ty
    ints = [int(x['int']) if 'int' in x else None for x in m['ta']]
    return dict(vec=ints[2] == 1, rowmajor=bool(ints[3] & 1))
def map_ctor(ex, st, c):
    prog = c.fr.prog
    ty = c.t if c.t is not None and c.t.get('tn') == 'Eigen::Map' else prog.types[c.f['cls']]
    a = [ex.val(st, x) for x in c.args]
    if len(a) == 1 and isinstance(a[0], EMap): return a[0]
    m = mat_type(prog, ty); p = a[0]
    dims = [x for x in a[1:] if isinstance(x, T)]
    if m['vec'] and len(dims) == 2: dims = dims[:1]
    sd = [x for x in a[1:] if isinstance(x, Rec)]
    z = lambda t: t is I(0)
    inner = sd[0].f['inner'] if sd and not z(sd[0].f['inner']) else I(1)
    if m['vec']: strs = [inner]; outer = None
    else:
        outer = sd[0].f['outer'] if sd and not z(sd[0].f['outer']) else (dims[1] if m['rowmajor'] else dims[0])
        strs = [outer, inner] if m['rowmajor'] else [inner, outer]
    if isinstance(p, Ptr): return EMap(SView(p.base, p.off, dims, strs), inner, outer)
    if isinstance(p, DataOf):
        v = p.v; g = []
        if len(v.ext) != len(dims): raise Unsupported('map of a view of another rank')
        for q, (e, d, s) in enumerate(zip(v.ext, dims, strs)): g += [eq(e, d), or_(le(e, I(1)), *([le(x, I(0)) for x in v.ext] + [eq(stride_(ex, v, q), s)]))]
        ex.oblige('layout', st, and_(*g), c.loc, 'the Eigen map has the extents and strides of the view')
        return EMap(v, inner, outer)
    raise Unsupported('Eigen::Map over %r' % (p,))
def expr(ex, st, v):
    """the value of an Eigen operand"""
    if isinstance(v, Ref): v = ex.load(st, v)
    if isinstance(v, EMap):
        snap = st.clone(); w = v.v; one = len(w.ext) == 1
        return EM(v.rows(), v.cols(), lambda i, j: ex.load(snap, w.at([i] if one else [i, j])), [(w, 'same')])
    if isinstance(v, EM): return v
    raise Unsupported('Eigen operand %r' % (v,))
def mat_default(ex, st, ty, prog): return UNDEF
def mat_ctor(ex, st, c):
    if not c.args: return UNDEF
    a = ex.val(st, c.args[0])
    if isinstance(a, T) and len(c.args) == 1:       # a vector of the given length, uninitialised
        root = ex.newroot(st, fun('undef#%d' % fresh('m', 'I').id, 'I', 'R'), 'eigvec'); st.ghost[('ext', root.root)] = a
        return EMap(SView(root, I(0), [a], [I(1)]))
    v = expr(ex, st, c.args[0]); return EM(v.r, v.c, v.fn)
def mat_mksym(ex, st, ty, name, idx, prog): return Opq('Eigen::Matrix', name)
LIBCLS['Eigen::Matrix'] = dict(ctor=mat_ctor, default=mat_default)
LIBCLS['Eigen::Map'] = dict(ctor=map_ctor)
def ref_ctor(ex, st, c):
    v = ex.val(st, c.args[0])
    if isinstance(v, EMap): return v
    raise Unsupported('Eigen::Ref')
LIBCLS['Eigen::Ref'] = dict(ctor=ref_ctor)
EIG = ('Eigen::MatrixBase', 'Eigen::DenseBase', 'Eigen::EigenBase', 'Eigen::MapBase', 'Eigen::RefBase', 'Eigen::Map', 'Eigen::Ref', 'Eigen::Matrix', 'Eigen::PlainObjectBase',
       'Eigen::DenseCoeffsBase', 'Eigen::TriangularViewImpl', 'Eigen::TriangularView', 'Eigen::TriangularBase', 'Eigen::PermutationBase', 'Eigen::SolverBase', 'Eigen::NoAlias', 'Eigen::LLT', 'Eigen::PartialPivLU', 'Eigen::Product', 'Eigen::CwiseBinaryOp', 'Eigen::Transpose')
def eig(*ms):
    def d(f):
        for t in EIG: cls(t, *ms)(f)
        return f
    return d
def self_(ex, st, c): return ex.val(st, c.obj)
def product(ex, st, c, a, b):
    if isinstance(a, Perm):
        x = expr(ex, st, b); ex.oblige('precondition', st, eq(a.n, x.r), c.loc, 'the factors of the product have matching extents')
        return EM(x.r, x.c, lambda i, j: x.fn(a.inv(i), j), [(w, 'mixed') for w, _ in x.al])
    if isinstance(a, Tri): x = EM(a.n, a.n, a.fn)
    else: x = expr(ex, st, a)
    y = EM(b.n, b.n, b.fn) if isinstance(b, Tri) else expr(ex, st, b)
    ex.oblige('precondition', st, eq(x.c, y.r), c.loc, 'the factors of the product have matching extents')
    def fn(i, j):
        k = fresh('k', 'I'); return sum_(k, I(0), x.c, mul(x.fn(i, k), y.fn(k, j)))
    return EM(x.r, y.c, fn, [(w, 'product') for w, _ in x.al + y.al])
def scaled(ex, st, a, b):
    if isinstance(a, T): a, b = b, a
    x = expr(ex, st, a); s = toreal(b) if b.s != 'R' else b
    return EM(x.r, x.c, lambda i, j: mul(s, x.fn(i, j)), x.al)
def times(ex, st, c, a, b):
    if isinstance(a, T) or isinstance(b, T): return scaled(ex, st, a, b)
    return product(ex, st, c, a, b)
def both(ex, st, c, a, b, op):
    x, y = expr(ex, st, a), expr(ex, st, b)
    ex.oblige('precondition', st, and_(eq(x.r, y.r), eq(x.c, y.c)), c.loc, 'the terms of the sum have equal extents')
    return EM(x.r, x.c, lambda i, j: op(x.fn(i, j), y.fn(i, j)), x.al + y.al)
@lib('Eigen::operator*')
def _(ex, st, c): return times(ex, st, c, V_(ex, st, c, 0), V_(ex, st, c, 1))
@eig('operator*')
def _(ex, st, c): return times(ex, st, c, self_(ex, st, c), V_(ex, st, c, 0))
@eig('operator/')
def _(ex, st, c): return scaled(ex, st, self_(ex, st, c), div(R(1), V_(ex, st, c, 0)))
@eig('operator+')
def _(ex, st, c): return both(ex, st, c, self_(ex, st, c), V_(ex, st, c, 0), add)
@eig('operator-')
def _(ex, st, c):
    if not c.args: return scaled(ex, st, self_(ex, st, c), R(-1))
    return both(ex, st, c, self_(ex, st, c), V_(ex, st, c, 0), sub)
@eig('transpose')
def _(ex, st, c):
    v = self_(ex, st, c)
    if isinstance(v, Tri): return Tri(v.n, lambda i, j: v.fn(j, i), v.what + ' transposed', v.det)
    x = expr(ex, st, v); return EM(x.c, x.r, lambda i, j: x.fn(j, i), [(w, 'mixed') for w, _ in x.al])
@eig('eval')
def _(ex, st, c): x = expr(ex, st, self_(ex, st, c)); return EM(x.r, x.c, x.fn)
@eig('rows')
def _(ex, st, c): v = self_(ex, st, c); return v.n if isinstance(v, (Tri, Fact, Perm)) else v.rows()
@eig('cols')
def _(ex, st, c): v = self_(ex, st, c); return v.n if isinstance(v, (Tri, Fact, Perm)) else v.cols()
@eig('size')
def _(ex, st, c): v = self_(ex, st, c); return mul(v.rows(), v.cols())
@eig('derived')
def _(ex, st, c): return c.obj
@eig('innerStride')
def _(ex, st, c): v = self_(ex, st, c); return v.inner
@eig('outerStride')
def _(ex, st, c): v = self_(ex, st, c); return v.outer
@eig('data')
def _(ex, st, c):
    v = self_(ex, st, c)
    if isinstance(v, EMap) and isinstance(v.v, SView): return Ptr(v.v.buf, v.v.off)
    raise Unsupported('data() of %r' % (v,))
def assign(ex, st, c, d, x, noalias=False):
    """write an expression through a map: extents cannot change; an expression that still refers to the written memory must do so element by element"""
    if not isinstance(d, EMap): raise Unsupported('assignment to %r' % (d,))
    w = d.v
    ex.oblige('precondition', st, and_(eq(d.rows(), x.r), eq(d.cols(), x.c)), c.loc, 'the assigned matrix has the extents of the map')
    for o, how in x.al:
        if o.buf == w.buf and (how == 'mixed' or (how == 'product' and noalias) or o != w):
            ex.oblige('precondition', st, FALSE, c.loc, 'the assigned expression does not read memory it has already overwritten')
    if isinstance(w, SView): raise Unsupported('assignment through a flat map')
    import spec_common
    one = len(w.ext) == 1
    spec_common.fill(ex, st, w, (lambda i, cur: x.fn(i, I(0))) if one else (lambda i, j, cur: x.fn(i, j)))
@eig('operator=')
def _(ex, st, c):
    d = self_(ex, st, c); na = isinstance(d, Opq) and d.tag == 'noalias'
    if na: d = d.data
    x = ex.val(st, c.args[0])
    if isinstance(d, (Undef, EM)):
        y = expr(ex, st, x); ex.store(st, c.obj, EM(y.r, y.c, y.fn)); return c.obj
    assign(ex, st, c, d, expr(ex, st, x), na); return c.obj
def compound(op):
    def h(ex, st, c):
        d = self_(ex, st, c); na = isinstance(d, Opq) and d.tag == 'noalias'
        if na: d = d.data
        x, y = expr(ex, st, d), expr(ex, st, ex.val(st, c.args[0]))
        ex.oblige('precondition', st, and_(eq(x.r, y.r), eq(x.c, y.c)), c.loc, 'the terms of the sum have equal extents')
        assign(ex, st, c, d, EM(x.r, x.c, lambda i, j: op(x.fn(i, j), y.fn(i, j)), y.al), na); return c.obj
    return h
eig('operator+=')(compound(add)); eig('operator-=')(compound(sub))
@eig('operator*=')
def _(ex, st, c):
    d = self_(ex, st, c); s = V_(ex, st, c, 0)
    if not isinstance(s, T): raise Unsupported('operator*=')
    x = expr(ex, st, d); assign(ex, st, c, d, EM(x.r, x.c, lambda i, j: mul(s, x.fn(i, j)))); return c.obj
@eig('setZero')
def _(ex, st, c):
    d = self_(ex, st, c); assign(ex, st, c, d, EM(d.rows(), d.cols(), lambda i, j: R(0))); return c.obj
@eig('noalias')
def _(ex, st, c): return Opq('noalias', self_(ex, st, c))

# ---- factorisations
FACTS = {}
def factor(ex, kind, x):
    """A = L L^T (LLT) / P A = L U (LU) for the matrix value x"""
    n = fresh('f', 'I').id; f = Fact(); f.kind = kind; f.n = x.r
    f.A = x.fn; f.det = sym('det#%d' % n, 'R')
    f.L = lambda i, j: app('L#%d' % n, 'R', i, j)
    if kind == 'LLT': f.U = lambda i, j: f.L(j, i)
    else: f.U = lambda i, j: app('U#%d' % n, 'R', i, j)
    f.perm = (lambda i: app('perm#%d' % n, 'I', i), lambda i: app('pinv#%d' % n, 'I', i)) if kind == 'LU' else None
    return f
def fact_ctor(kind):
    def h(ex, st, c):
        x = expr(ex, st, ex.val(st, c.args[0]))
        ex.oblige('precondition', st, eq(x.r, x.c), c.loc, 'the factored matrix is square')
        return factor(ex, kind, x)
    return h
LIBCLS['Eigen::PartialPivLU'].update(ctor=fact_ctor('LU')); LIBCLS['Eigen::LLT'].update(ctor=fact_ctor('LLT'))
_ms = LIB['std::make_shared']
@lib('std::make_shared', 'std::make_unique')
def _(ex, st, c):
    ty = c.fr.prog.types[c.f['ta'][0]['ty']]
    if ty.get('tn') in ('Eigen::PartialPivLU', 'Eigen::LLT'): return ObjPtr(ex.newroot(st, LIBCLS[ty['tn']]['ctor'](ex, st, c), 'sh'))
    return _ms(ex, st, c)
@eig('compute')
def _(ex, st, c):
    tn = c.fr.prog.types[c.f['cls']]['tn']; ex.store(st, c.obj, LIBCLS[tn]['ctor'](ex, st, c)); return c.obj
@eig('permutationP')
def _(ex, st, c): f = self_(ex, st, c); return Perm(f.n, f.perm[1])
@eig('matrixLU')
def _(ex, st, c): f = self_(ex, st, c); return Opq('matrixLU', f)
@eig('matrixL')
def _(ex, st, c): f = self_(ex, st, c); return Tri(f.n, f.L, 'L', app('detL', 'R', f.det))
@eig('matrixU')
def _(ex, st, c): f = self_(ex, st, c); return Tri(f.n, f.U, 'U', app('detL', 'R', f.det))
@eig('triangularView')
def _(ex, st, c):
    v = self_(ex, st, c); m = int(c.f['ta'][0]['int'])
    if isinstance(v, Opq) and v.tag == 'matrixLU':
        f = v.data
        if m == 5: return Tri(f.n, f.L, 'L')                     # UnitLower
        if m == 2: return Tri(f.n, f.U, 'U')                     # Upper
        n = fresh('t', 'I').id
        return Tri(f.n, lambda i, j: app('tri#%d' % n, 'R', i, j), 'other')
    raise Unsupported('triangularView')
@eig('solveInPlace')
def _(ex, st, c):
    t = self_(ex, st, c); d = ex.val(st, c.args[0])
    if not isinstance(t, Tri) or not isinstance(d, EMap): raise Unsupported('solveInPlace')
    ex.oblige('precondition', st, eq(t.n, d.rows()), c.loc, 'the right-hand side has as many rows as the factor')
    x = expr(ex, st, d); n = fresh('y', 'I').id
    Y = lambda i, j: app('sol#%d' % n, 'R', i, j)
    i, j, k = fresh('i', 'I'), fresh('j', 'I'), fresh('k', 'I')
    st.assume(all_(i, I(0), t.n, all_(j, I(0), x.c, eq(sum_(k, I(0), t.n, mul(t.fn(i, k), Y(k, j))), x.fn(i, j)))))
    LAST.append((t, Y, x))
    assign(ex, st, c, d, EM(x.r, x.c, Y)); return UNDEF
LAST = []
@eig('determinant')
def _(ex, st, c):
    v = self_(ex, st, c)
    if isinstance(v, Tri): return v.det if v.det is not None else fresh('det', 'R')
    return v.det
