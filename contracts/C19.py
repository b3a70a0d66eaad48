"""C19: conversions between arrays, vectors and views keep every element at its place; wrapping shares memory, copying does not."""
from unit import *
from spec_common import *
import dense
from dense import EMap, EM, SView
P = 'C19'; TU = 'C20'
N = 'mpart::'
BIG = 2**31 - 1
def short(u, f): return [s.split('Kokkos::View<')[-1].replace('Kokkos::', '').replace(', HostSpace>', '') if 'View' in s else s for s in u.sig(f)]
def pick(u, name, *pats, ret=None):
    def ok(f):
        s = short(u, f); t = u.prog.unref(f['ret']).get('s', '')
        return 'body' in f and len(s) == len(pats) and all(p in x for p, x in zip(pats, s)) and (ret is None or ret(t))
    return u.fn(N + name, pred=ok)
def dims(u, *names):
    out = [u.int(n) for n in names]
    for t in out: u.assume(le(t, I(BIG)))
    return out
def flat(u, *names):
    """raw memory holding exactly the product of the extents"""
    e = dims(u, *names); n = I(1)
    for x in e: n = mul(n, x)
    p = u.array('mem', ext=n); return p, e
def same_cells(u, v, p, e, strs, what):
    """element (i,j) of the result is the memory cell p[i*s0 + j*s1], and the extents are e"""
    if not isinstance(v, View): u.post(what, FALSE); return
    i = [u.int('i%d' % q) for q in range(len(e))]
    want = p.off
    for a, s in zip(i, strs): want = add(want, mul(a, s))
    u.post('extents of the result', B(len(v.ext) == len(e)) if len(v.ext) != len(e) else and_(*[eq(a, b) for a, b in zip(v.ext, e)]))
    r = v.at(i)
    u.post(what, and_(B(Ref(r.root, r.steps[:-1]) == p.base), eq(r.steps[-1][1], want)), hyps=[lt(a, b) for a, b in zip(i, e)])
VAL = lambda t: True
# ---- raw pointers
for name in ('ToKokkos', 'ToConstKokkos'):
    @unit(P, name=name + ' (pointer, length)', targets=N + name)
    def _(u, name=name):
        f = pick(u, name, 'ptr', 'int'); p, e = flat(u, 'n')
        o = u.call(f, None, [p] + e); u.nothrow(o)
        same_cells(u, o.ret, p, e, [I(1)], 'element i is the i-th cell of the memory')
    for lay in ('LayoutLeft', 'LayoutRight'):
        @unit(P, name='%s (pointer, rows, columns; %s)' % (name, lay), targets=N + name)
        def _(u, name=name, lay=lay):
            f = pick(u, name, 'ptr', 'int', 'int', ret=lambda t: lay in t); p, e = flat(u, 'r', 'c')
            o = u.call(f, None, [p] + e); u.nothrow(o)
            same_cells(u, o.ret, p, e, [I(1), e[0]] if lay == 'LayoutLeft' else [e[1], I(1)], 'element (i,j) is the cell of the memory in %s-major order' % ('column' if lay == 'LayoutLeft' else 'row'))
def tup(*xs): return Rec('std::tuple', {str(k): x for k, x in enumerate(xs)})
@unit(P, name='ToKokkos (address, shape, strides)', targets=N + 'ToKokkos')
def _(u):
    f = pick(u, 'ToKokkos', 'tuple', ret=lambda t: '**' in t); e = dims(u, 'r', 'c'); s = dims(u, 's0', 's1'); p = u.array('mem')
    o = u.call(f, None, [tup(p, tup(*e), tup(*s))]); u.nothrow(o)
    same_cells(u, o.ret, p, e, s, 'element (i,j) is the cell at i times the row stride plus j times the column stride')
@unit(P, name='ToKokkos (address, length, stride)', targets=N + 'ToKokkos')
def _(u):
    f = pick(u, 'ToKokkos', 'tuple', ret=lambda t: '**' not in t); (n,) = dims(u, 'n'); (s,) = dims(u, 's'); p = u.array('mem')
    o = u.call(f, None, [tup(p, n, s)]); u.nothrow(o)
    same_cells(u, o.ret, p, [n], [s], 'element i is the cell at i times the stride')
# ---- std::vector
def stdvec(u, n):
    v = u.vec('v', n, 'R'); r = u.ref(v, 'vec'); return r, Ptr(r.sub('#e'), I(0))
for name in ('VecToKokkos', 'ConstVecToKokkos', 'VecToConstKokkos'):
    @unit(P, name=name + ' (std::vector)', targets=N + name)
    def _(u, name=name):
        f = pick(u, name, 'std::vector'); (n,) = dims(u, 'n'); r, p = stdvec(u, n)
        o = u.call(f, None, [r]); u.nothrow(o)
        same_cells(u, o.ret, p, [n], [I(1)], 'element i is the i-th element of the vector itself')
for name in ('MatToKokkos', 'MatToConstKokkos'):
    @unit(P, name=name + ' (std::vector)', targets=N + name)
    def _(u, name=name):
        f = pick(u, name, 'std::vector', 'int'); a, c = dims(u, 'rows', 'c'); n = mul(a, c); u.assume(or_(ge(c, I(1)), eq(a, I(0)))); r, p = stdvec(u, n)
        o = u.call(f, None, [r, c]); u.nothrow(o)
        same_cells(u, o.ret, p, [a, c], [c, I(1)], 'element (i,j) is element i*cols+j of the vector itself')
# ---- views to std::vector, host copies
for pat, nm in (('double *', 'contiguous'), ('double *, LayoutStride', 'strided')):
    @unit(P, name='KokkosToStd (%s)' % nm, targets=N + 'KokkosToStd')
    def _(u, nm=nm):
        f = u.fn(N + 'KokkosToStd', pred=lambda f: 'body' in f and ('Stride' in short(u, f)[0]) == (nm == 'strided')); (n,) = dims(u, 'n'); x = u.view('x', n); i = u.int('i'); x0 = u.at(x, i)
        o = u.call(f, None, [x]); u.nothrow(o)
        v = u.load(o.ret) if isinstance(o.ret, Ref) else o.ret
        u.post('a copy of every element in order', and_(eq(v.n, n), eq(u.at(v, i), x0)), hyps=[lt(i, n)])
        u.post('the view is unchanged', eq(u.at(x, i), x0))
@unit(P, name='ToHost (view)', targets=N + 'ToHost')
def _(u):
    f = u.fn(N + 'ToHost', pred=lambda f: 'body' in f and len(f['ps']) == 1 and '**' not in short(u, f)[0]); (n,) = dims(u, 'n'); x = u.view('x', n); i = u.int('i'); x0 = u.at(x, i)
    o = u.call(f, None, [x]); u.nothrow(o)
    u.post('every element of the view', and_(eq(o.ret.ext[0], n), eq(u.at(o.ret, i), x0), eq(u.at(x, i), x0)), hyps=[lt(i, n)])
@unit(P, name='ToHost (strided matrix)', targets=N + 'ToHost')
def _(u):
    f = u.fn(N + 'ToHost', pred=lambda f: 'body' in f and len(f['ps']) == 1 and '**' in short(u, f)[0]); r, c = dims(u, 'r', 'c'); x = u.view('x', r, c); i, j = u.int('i'), u.int('j'); x0 = u.at(x, i, j)
    o = u.call(f, None, [x]); u.nothrow(o)
    u.post('every element of the view', and_(eq(o.ret.ext[0], r), eq(o.ret.ext[1], c), eq(u.at(o.ret, i, j), x0), eq(u.at(x, i, j), x0)), hyps=[lt(i, r), lt(j, c)])
@unit(P, name='ToHost (range of a view)', targets=N + 'ToHost')
def _(u):
    f = u.fn(N + 'ToHost', pred=lambda f: 'body' in f and len(f['ps']) == 2); (n,) = dims(u, 'n'); x = u.view('x', n); i = u.int('i'); a, b = u.int('a'), u.int('b'); u.assume(and_(le(a, b), le(b, n))); x0 = u.at(x, add(a, i))
    o = u.call(f, None, [x, Rec('std::pair', dict(first=a, second=b))]); u.nothrow(o)
    u.post('the elements of the range in order', and_(eq(o.ret.ext[0], sub(b, a)), eq(u.at(o.ret, i), x0)), hyps=[lt(i, sub(b, a))])
# ---- Eigen to views
def eref(u, rank, order=None, inner=None):
    """reference to a block of an Eigen object; vectors have one stride, matrices an inner and an outer one"""
    p = u.array('mem'); p = Ptr(p.base, u.int('start'))
    if rank == 1:
        (n,) = dims(u, 'n'); (s,) = dims(u, 's'); return EMap(SView(p.base, p.off, [n], [s]), s, None), p, [n], [s]
    e = dims(u, 'r', 'c'); outer = u.int('outer'); inn = inner if inner is not None else u.int('inner')
    if inner is not None:                                     # unit inner stride: columns (rows) do not overlap
        u.assume(and_(ge(outer, e[0] if order == 'C' else e[1])))
    s = [inn, outer] if order == 'C' else [outer, inn]
    return EMap(SView(p.base, p.off, e, s), inn, outer), p, e, s
@unit(P, name='VecToKokkos (Eigen)', targets=N + 'VecToKokkos')
def _(u):
    f = pick(u, 'VecToKokkos', 'Eigen::Ref'); m, p, e, s = eref(u, 1)
    o = u.call(f, None, [m]); u.nothrow(o)
    same_cells(u, o.ret, p, e, s, 'element i is element i of the Eigen vector itself')
for order, nm in (('C', '-1, -1, 0, -1, -1'), ('R', '-1, -1, 1, -1, -1')):
    @unit(P, name='MatToKokkos (Eigen, %s-major)' % dict(C='column', R='row')[order], targets=N + 'MatToKokkos')
    def _(u, order=order, nm=nm):
        f = u.fn(N + 'MatToKokkos', pred=lambda f: 'body' in f and len(f['ps']) == 1 and 'Eigen::Ref' in u.sig(f)[0] and nm in u.sig(f)[0]); m, p, e, s = eref(u, 2, order)
        o = u.call(f, None, [m]); u.nothrow(o)
        same_cells(u, o.ret, p, e, s, 'element (i,j) is element (i,j) of the Eigen object itself')
    @unit(P, name='Const%sMatToKokkos' % dict(C='Col', R='Row')[order], targets=N + 'Const%sMatToKokkos' % dict(C='Col', R='Row')[order])
    def _(u, order=order):
        f = pick(u, 'Const%sMatToKokkos' % dict(C='Col', R='Row')[order], 'Eigen::Ref'); m, p, e, s = eref(u, 2, order, I(1))
        o = u.call(f, None, [m]); u.nothrow(o)
        same_cells(u, o.ret, p, e, s, 'element (i,j) is element (i,j) of the Eigen object itself')
# ---- views to Eigen
def strided1(u, kind):
    p = u.array('mem'); p = Ptr(p.base, u.int('start')); (n,) = dims(u, 'n'); (s,) = dims(u, 's')
    if kind == 'contiguous': s = I(1)
    return SView(p.base, p.off, [n], [s]), p, [n], [s]
def strided2(u, kind):
    """a matrix view: LayoutLeft/LayoutRight have one unit stride and the other at least the extent of that axis"""
    p = u.array('mem'); p = Ptr(p.base, u.int('start')); e = dims(u, 'r', 'c'); s = dims(u, 's0', 's1')
    if kind == 'LayoutLeft': u.assume(ge(s[1], e[0])); s[0] = I(1)
    if kind == 'LayoutRight': u.assume(ge(s[0], e[1])); s[1] = I(1)
    return SView(p.base, p.off, e, s), p, e, s
for kind in ('contiguous', 'strided'):
    @unit(P, name='KokkosToVec (%s)' % kind, targets=N + 'KokkosToVec')
    def _(u, kind=kind):
        f = u.fn(N + 'KokkosToVec', pred=lambda f: 'body' in f and ('Stride' in short(u, f)[0]) == (kind == 'strided')); x, p, e, s = strided1(u, kind)
        o = u.call(f, None, [x]); u.nothrow(o)
        same_cells(u, o.ret.v if isinstance(o.ret, EMap) else None, p, e, s, 'element i of the map is element i of the view itself')
    @unit(P, name='CopyKokkosToVec (%s)' % kind, targets=N + 'CopyKokkosToVec')
    def _(u, kind=kind):
        f = u.fn(N + 'CopyKokkosToVec', pred=lambda f: 'body' in f and ('Stride' in short(u, f)[0]) == (kind == 'strided')); x, p, e, s = strided1(u, kind); i = u.int('i')
        x0 = u.at(x, i); o = u.call(f, None, [x]); u.nothrow(o); v = o.ret
        u.post('a copy of every element, not a map of the view', and_(B(isinstance(v, EM) and not v.al), eq(v.r, e[0]), eq(v.c, I(1)), eq(v.fn(i, I(0)), x0)) if isinstance(v, EM) else FALSE, hyps=[lt(i, e[0])])
        u.post('the view is unchanged', eq(u.at(x, i), x0))
for kind in ('LayoutLeft', 'LayoutRight', 'LayoutStride'):
    for name in ('KokkosToMat', 'ConstKokkosToMat'):
        @unit(P, name='%s (%s)' % (name, kind), targets=N + name)
        def _(u, kind=kind, name=name):
            f = u.fn(N + name, pred=lambda f: 'body' in f and kind in short(u, f)[0]); x, p, e, s = strided2(u, kind)
            o = u.call(f, None, [x]); u.nothrow(o)
            same_cells(u, o.ret.v if isinstance(o.ret, EMap) else None, p, e, s, 'element (i,j) of the map is element (i,j) of the view itself')
    @unit(P, name='CopyKokkosToMat (%s)' % kind, targets=N + 'CopyKokkosToMat')
    def _(u, kind=kind):
        f = u.fn(N + 'CopyKokkosToMat', pred=lambda f: 'body' in f and kind in short(u, f)[0]); x, p, e, s = strided2(u, kind); i, j = u.int('i'), u.int('j'); x0 = u.at(x, i, j)
        o = u.call(f, None, [x]); u.nothrow(o); v = o.ret
        u.post('a copy of every element, not a map of the view', and_(B(not v.al), eq(v.r, e[0]), eq(v.c, e[1]), eq(v.fn(i, j), x0)) if isinstance(v, EM) else FALSE, hyps=[lt(i, e[0]), lt(j, e[1])])
        u.post('the view is unchanged', eq(u.at(x, i, j), x0))
