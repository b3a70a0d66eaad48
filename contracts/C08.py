"""C08: a multivariate expansion equals the tensor-product basis sum and its derivatives are the exact partial derivatives."""
from unit import *
from spec_common import *

W = 'mpart::MultivariateExpansionWorker::'
P = 'C08'
TU = 'C08'

def setup(u, meth, **kw):
    f = u.fn(W + meth, **kw)
    this = u.obj(f)
    w = worker_inv(u, this)
    return f, this, w

def common(u, w):
    cache = u.array('cache'); c = u.view('c', w.N)
    rd_ = lambda slot: (lambda d, p: u.at(cache, add(w.start(slot(d)), p)))
    w.val = rd_(lambda d: d)                              # phi_p(x_d)
    w.d1 = rd_(lambda d: add(w.dim, d))                   # phi_p'(x_d)   (slot dim+d, last dimension: 2dim-1)
    w.d1l = rd_(lambda d: sub(mul(I(2), w.dim), I(1)))    # phi_p'(x_last)  (the same slot, written for the last dimension)
    w.d2 = rd_(lambda d: mul(I(2), w.dim))                # phi_p''(x_last)
    w.c = lambda t: u.at(c, t)
    w.last = sub(w.dim, I(1))
    return cache, c

def has(w, t, wrt):
    i = fresh('i', 'I')
    return any_(i, w.starts(t), w.starts(add(t, I(1))), eq(w.dims(i), wrt))
def repl(base, wrt, new):
    """the factor function with the factor of dimension wrt replaced"""
    return lambda d, p: ite(eq(d, wrt), new(d, p), base(d, p))
def dterm(w, t, wrt, phi):
    """d/dx_wrt of term t: 0 when the dimension does not occur"""
    return ite(has(w, t, wrt), w.term(t, phi), R(0))
def dsum(w, wrt, phi):
    t = fresh('t', 'I')
    return sum_(t, I(0), w.N, mul(w.c(t), dterm(w, t, wrt, phi)))

@unit(P, targets=W + 'Evaluate')
def evaluate(u):
    f, this, w = setup(u, 'Evaluate')
    cache, c = common(u, w)
    o = u.call(f, this, [cache, c])
    u.nothrow(o)
    u.post('value = sum_t c_t prod_i phi_{order_i}(x_i)', eq(o.ret, w.expansion(w.val, w.c)))

@unit(P, targets=W + 'CoeffDerivative')
def coeff_derivative(u):
    f, this, w = setup(u, 'CoeffDerivative')
    cache, c = common(u, w)
    g = u.view('grad', w.N)
    o = u.call(f, this, [cache, c, g])
    t = u.int('t')
    u.post('returned value', eq(o.ret, w.expansion(w.val, w.c)))
    u.post('d value / d c_t = basis term t', eq(u.at(g, t), w.term(t, w.val)), hyps=[lt(t, w.N)])

def dphi(w, k): return w.d1l if k == 1 else w.d2
def _diag(k):
    @unit(P, name='diagonal_derivative_%d' % k, targets=W + 'DiagonalDerivative')
    def _(u):
        f, this, w = setup(u, 'DiagonalDerivative')
        cache, c = common(u, w)
        o = u.call(f, this, [cache, c, I(k)])
        u.post('order-%d derivative in the last input' % k, eq(o.ret, dsum(w, w.last, repl(w.val, w.last, dphi(w, k)))))
    @unit(P, name='mixed_coeff_derivative_%d' % k, targets=W + 'MixedCoeffDerivative')
    def _(u):
        f, this, w = setup(u, 'MixedCoeffDerivative')
        cache, c = common(u, w)
        g = u.view('grad', w.N); t = u.int('t')
        o = u.call(f, this, [cache, c, I(k), g])
        phi = repl(w.val, w.last, dphi(w, k))
        u.post('returned diagonal derivative', eq(o.ret, dsum(w, w.last, phi)))
        u.post('coefficient gradient of the diagonal derivative', eq(u.at(g, t), dterm(w, t, w.last, phi)), hyps=[lt(t, w.N)])
_diag(1); _diag(2)

@unit(P, targets=W + 'InputDerivative')
def input_derivative(u):
    f, this, w = setup(u, 'InputDerivative')
    cache, c = common(u, w)
    g = u.view('grad', w.dim)
    o = u.call(f, this, [cache, c, g])
    d = u.int('d')
    u.post('returned value', eq(o.ret, w.expansion(w.val, w.c)))
    u.post('gradient entry d = partial derivative', eq(u.at(g, d), dsum(w, d, repl(w.val, d, w.d1))), hyps=[lt(d, w.dim)])

@unit(P, targets=W + 'MixedInputDerivative')
def mixed_input_derivative(u):
    f, this, w = setup(u, 'MixedInputDerivative')
    cache, c = common(u, w)
    g = u.view('grad', w.dim)
    o = u.call(f, this, [cache, c, g])
    d = u.int('d')
    ph = repl(w.val, w.last, w.d1l)
    u.post('returned diagonal derivative', eq(o.ret, dsum(w, w.last, ph)))
    t = fresh('t', 'I')
    off = sum_(t, I(0), w.N, mul(w.c(t), ite(and_(has(w, t, d), has(w, t, w.last)), w.term(t, repl(repl(w.val, d, w.d1), w.last, w.d1l)), R(0))))
    u.post('entry d < last: mixed partial', eq(u.at(g, d), off), hyps=[lt(d, w.last)])
    u.post('entry last: second derivative', eq(u.at(g, w.last), dsum(w, w.last, repl(w.val, w.last, w.d2))))

# ---------------------------------------------------------------- filling the cache
B = lambda n, x, k: app('B%d' % k, 'R', n, x)
NONE, PAR, DIAG, DIAG2, MIXED, INPUT, MIXIN = range(7)
def slots(u, w):
    """the layout of the cache established by the constructor: slot s holds one entry for every degree of its dimension"""
    d, a, b = fresh('d', 'I'), fresh('a', 'I'), fresh('b', 'I'); D = w.dim; n = add(mul(I(2), D), I(2))
    w.len = lambda s: add(w.wmaxdeg(ite(lt(s, D), s, ite(lt(s, mul(I(2), D)), sub(s, D), sub(D, I(1))))), I(1))
    w.nslot = sub(n, I(1))
    u.assume(eq(w.start(I(0)), I(0)))
    u.assume(all_(d, I(0), w.nslot, eq(w.start(add(d, I(1))), add(w.start(d), w.len(d)))))
    # disjoint slots: a lemma by induction on the later slot
    a = fresh('a', 'I'); apart = lambda m, a: le(add(w.start(a), w.len(a)), w.start(m))
    u.induct('slots are disjoint', w.nslot, lambda m: imp(and_(le(m, w.nslot), ge(a, I(0)), lt(a, m)), apart(m, a)))
    x, y = fresh('x', 'I'), fresh('y', 'I')       # a was arbitrary
    u.assume(all_(x, I(0), w.nslot, all_(y, add(x, I(1)), add(w.nslot, I(1)), apart(y, x))))
    u.assume(all_(x, I(0), w.nslot, apart(w.nslot, x)))
    w.apart = apart
    return w
def fillsetup(u, meth):
    f, this, w = setup(u, meth); slots(u, w)
    basis_contract(u, 'mpart::OrthogonalPolynomial', B)
    cache = u.array('cache', ext=w.start(w.nslot)); c0 = u.load(cache.base)
    pt = u.view('pt', w.dim)
    return f, this, w, cache, c0, pt
for fl, nm in ((NONE, 'None'), (PAR, 'Parameters'), (DIAG, 'Diagonal'), (DIAG2, 'Diagonal2'), (INPUT, 'Input'), (MIXIN, 'MixedInput')):
    @unit(P, name='FillCache1 (%s)' % nm, targets=W + 'FillCache1')
    def _(u, fl=fl):
        f, this, w, cache, c0, pt = fillsetup(u, 'FillCache1')
        r = u.call(f, this, [cache, pt, I(fl)]); u.nothrow(r)
        d, p = u.int('d'), u.int('p'); h = [lt(d, sub(w.dim, I(1))), le(p, w.wmaxdeg(d))]
        u.post('values of every leading dimension', eq(u.at(cache, add(w.start(d), p)), B(p, u.at(pt, d), 0)), hyps=h)
        if fl in (INPUT, MIXIN): u.post('derivatives of every leading dimension', eq(u.at(cache, add(w.start(add(w.dim, d)), p)), B(p, u.at(pt, d), 1)), hyps=h)
    @unit(P, name='FillCache2 (%s)' % nm, targets=W + 'FillCache2')
    def _(u, fl=fl):
        f, this, w, cache, c0, pt = fillsetup(u, 'FillCache2'); x = u.real('xd')
        r = u.call(f, this, [cache, pt, x, I(fl)]); u.nothrow(r)
        k = {NONE: 0, PAR: 0, DIAG: 1, INPUT: 1, DIAG2: 2, MIXIN: 2}[fl]
        d, p, l = u.int('d'), u.int('p'), sub(w.dim, I(1)); h = [le(p, w.wmaxdeg(l))]
        for q, s in ((0, l), (1, sub(mul(I(2), w.dim), I(1))), (2, mul(I(2), w.dim))):
            if q <= k: u.post(('values', 'derivatives', 'second derivatives')[q] + ' of the last dimension', eq(u.at(cache, add(w.start(s), p)), B(p, x, q)), hyps=h)
        for s, nm in ((d, 'values'), (add(w.dim, d), 'derivatives')):
            at = add(w.start(s), p)
            u.post('%s of the leading dimensions are kept' % nm, eq(u.at(cache, at), lapp(c0, at)), hyps=[lt(d, l), le(p, w.wmaxdeg(d))])

@unit(P, name='layout of the cache', targets=W + 'MultivariateExpansionWorker')
def _(u):
    f = u.fn(W + 'MultivariateExpansionWorker', nargs=2, pred=lambda f: 'FixedMultiIndexSet' in u.sig(f)[0]); this = u.obj(f)
    dummy = u.fn(W + 'Evaluate'); proto = u.load(u.obj(dummy, name='proto')); s = fixedset_inv(u, proto.f['multiSet_'])
    d = fresh('d', 'I'); u.assume(all_(d, I(0), s.dim, and_(ge(s.maxdeg(d), I(0)), le(s.maxdeg(d), I(2**20)))))
    u.contract('mpart::FixedMultiIndexSet::MaxDegrees', lambda ex, st, c: ex.val(st, c.obj).f['maxDegrees'])      # C05
    r = u.call(f, this, [s.rec, proto.f['basis1d_']]); u.nothrow(r)
    o = u.load(this); sp, md = o.f['startPos_'], o.f['maxDegrees_']; i = u.int('i'); D = s.dim
    u.post('one slot per dimension and derivative', eq(sp.ext[0], add(mul(I(2), D), I(2))))
    u.post('the first slot starts at 0', eq(u.at(sp, I(0)), I(0)))
    e = ite(lt(i, D), i, ite(lt(i, mul(I(2), D)), sub(i, D), sub(D, I(1))))
    u.post('slot i has one entry for every degree of its dimension', eq(u.at(sp, add(i, I(1))), add(u.at(sp, i), s.maxdeg(e), I(1))), hyps=[le(i, mul(I(2), D))])
    u.post('the cache holds all slots', eq(o.f['cacheSize_'], u.at(sp, add(mul(I(2), D), I(1)))))
    u.post('dimension and maximum degrees are those of the set', and_(eq(o.f['dim_'], D), eq(md.ext[0], D), eq(u.at(md, i), s.maxdeg(i))), hyps=[lt(i, D)])

# ---------------------------------------------------------------- functions with several outputs
F = 'mpart::MultivariateExpansion::'
class Fn:
    """MultivariateExpansion through the contracts of its worker: the expansion f(z, x; c) of the leading inputs z, the last input x and the coefficients c"""
    def __init__(g, u, meth):
        g.u = u; g.f = u.fn(F + meth); g.this = u.obj(g.f)
        g.d, g.N, g.m, g.np = u.int('dim', 1), u.int('terms', 1), u.int('outputs', 1), u.int('np', 1)
        for t in (g.d, g.N, g.np, mul(g.N, g.m)): u.assume(le(t, I(2**30)))
        g.c = u.view('c', mul(g.N, g.m)); g.pts = u.view('pts', g.d, g.np); g.C0 = u.load(g.c.buf)
        u.setf(g.this, inputDim=g.d, outputDim=g.m, numCoeffs=mul(g.N, g.m), savedCoeffs=g.c)
        size = app('cachesize', 'I', g.N); u.assume(ge(size, I(0))); u.assume(le(size, I(2**30)))
        for nm, v in (('NumCoeffs', g.N), ('InputSize', g.d), ('CacheSize', size)): u.contract(W + nm, lambda ex, st, c, v=v: v)
        g.size = size
        u.contract(W + 'FillCache1', g.fill1); u.contract(W + 'FillCache2', g.fill2)
        u.contract(W + 'Evaluate', lambda ex, st, c: g.read(ex, st, c, False))
        u.contract(W + 'InputDerivative', lambda ex, st, c: g.read(ex, st, c, True, 'DX', g.d))
        u.contract(W + 'CoeffDerivative', lambda ex, st, c: g.read(ex, st, c, False, 'DC', g.N))
    def vec(g, st, v, n): w = fresh('w', 'I'); return lam(w, ite(and_(ge(w, I(0)), lt(w, n)), g.u.at(v, w, st=st), R(0)))
    def cache(g, ex, st, c):
        p = ex.val(st, c.args[0])
        if not (isinstance(p, Ptr) and p.off is I(0)): raise Unsupported('cache pointer %r' % (p,))
        return p.base
    def flag(g, ex, st, a):
        t = ex.val(st, a)
        if not isnum(t): raise Unsupported('derivative flag %r' % (t,))
        return int(val(t))
    def fill1(g, ex, st, c):
        r = g.cache(ex, st, c); v = view_arg(ex, st, c, 1)
        ex.oblige('precondition', st, ge(v.ext[0], sub(g.d, I(1))), c.loc, 'FillCache1: the point has the leading coordinates')
        ex.oblige('precondition', st, ge(st.ghost.get(('ext', r.root), I(0)), g.size), c.loc, 'FillCache1: the cache has the size the worker asked for')
        ex.store(st, r, Opq('filled', (g.vec(st, v, sub(g.d, I(1))), g.flag(ex, st, c.args[2]) in (INPUT, MIXIN), None, False))); return None
    def fill2(g, ex, st, c):
        r = g.cache(ex, st, c); o = ex.load(st, r); ok = isinstance(o, Opq) and o.tag == 'filled'
        ex.oblige('precondition', st, B_(ok), c.loc, 'FillCache2 completes a cache started by FillCache1')
        if ok: ex.store(st, r, Opq('filled', (o.data[0], o.data[1], ex.val(st, c.args[2]), g.flag(ex, st, c.args[3]) not in (NONE, PAR))))
        return None
    def read(g, ex, st, c, der, grad=None, n=None):
        o = ex.load(st, g.cache(ex, st, c)); co = view_arg(ex, st, c, 1)
        ok = isinstance(o, Opq) and o.tag == 'filled' and o.data[2] is not None and (not der or (o.data[1] and o.data[3]))
        ex.oblige('precondition', st, B_(ok), c.loc, 'the cache holds the quantities this routine needs')
        if not ok: return fresh('unfilled', 'R')
        ex.oblige('precondition', st, ge(co.ext[0], g.N), c.loc, 'one coefficient per term')
        z, x, cc = o.data[0], o.data[2], g.vec(st, co, g.N)
        if grad:
            v = view_arg(ex, st, c, 2)
            ex.oblige('precondition', st, ge(v.ext[0], n), c.loc, 'room for the gradient')
            fill(ex, st, View(v.buf, v.dims, (n,)), lambda i, old: app(grad, 'R', z, x, cc, i))
        return app('D', 'R', z, x, cc)
    # specification
    def at(g, j, k):
        """leading inputs and last input of point j, coefficients of output k"""
        w = fresh('w', 'I'); u = g.u
        return (g.vec(u.st, View(g.pts.buf, [('a', I(0)), ('f', j)], (g.d,)), sub(g.d, I(1))), u.at(g.pts, sub(g.d, I(1)), j),
                lam(w, ite(and_(ge(w, I(0)), lt(w, g.N)), lapp(g.C0, add(mul(k, g.N), w)), R(0))))
B_ = lambda b: TRUE if b else FALSE
@unit(P, name='function value', targets=F + 'EvaluateImpl')
def _(u):
    g = Fn(u, 'EvaluateImpl'); out = u.view('out', g.m, g.np); j, k = u.int('j'), u.int('k'); u.assume(lt(j, g.np)); u.assume(lt(k, g.m))
    r = u.call(g.f, g.this, [g.pts, out]); u.nothrow(r)
    u.post('output k is the expansion with its own slice of the coefficients', eq(u.at(out, k, j), app('D', 'R', *g.at(j, k))))
@unit(P, name='function gradient', targets=F + 'GradientImpl')
def _(u):
    g = Fn(u, 'GradientImpl'); out, s = u.view('out', g.d, g.np), u.view('sens', g.m, g.np); j, i = u.int('j'), u.int('i'); u.assume(lt(j, g.np)); u.assume(lt(i, g.d))
    r = u.call(g.f, g.this, [g.pts, s, out]); u.nothrow(r); k = fresh('k', 'I')
    u.post('sensitivity-weighted sum of the input gradients of the outputs', eq(u.at(out, i, j), sum_(k, I(0), g.m, mul(u.at(s, k, j), app('DX', 'R', *g.at(j, k), i)))))
@unit(P, name='function coefficient gradient', targets=F + 'CoeffGradImpl')
def _(u):
    g = Fn(u, 'CoeffGradImpl'); out, s = u.view('out', mul(g.N, g.m), g.np), u.view('sens', g.m, g.np); j, k, t = u.int('j'), u.int('k'), u.int('t'); u.assume(lt(j, g.np)); u.assume(lt(k, g.m)); u.assume(lt(t, g.N))
    r = u.call(g.f, g.this, [g.pts, s, out]); u.nothrow(r)
    u.post('coefficient t of output k: its sensitivity times the derivative', eq(u.at(out, add(mul(k, g.N), t), j), mul(u.at(s, k, j), app('DC', 'R', *g.at(j, k), t))))
