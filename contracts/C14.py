"""C14: coefficients set on a function are the ones it uses and reports; wrong lengths and missing coefficients are errors."""
from unit import *
from spec_common import *
P = 'C14'; TU = 'C14'
N = 'mpart::'
PF = N + 'ParameterizedFunctionBase::'

def host_view(f): return '*' in str([1])
def base(u, f):
    this = u.obj(f); n, m, k = u.int('n'), u.int('m'), u.int('nc')
    u.setf(this, inputDim=n, outputDim=m, numCoeffs=k)
    return this, n, m, k
def kview(u, f, q=0):
    t = u.prog.unref(f['ps'][q]['t']); return t.get('tn') == 'Kokkos::View'
def is_set(u, this, st=None):
    """the function has a coefficient vector of its own length (or needs none)"""
    F = u.load(this, st).f; s = F['savedCoeffs']
    return or_(eq(F['numCoeffs'], I(0)), and_(alloc(s), eq(s.ext[0], F['numCoeffs'])))
def alloc(v): return app('alloc.%s' % v.buf.root, 'B')
def saved_inv(u, this):
    s = u.load(this).f['savedCoeffs']; u.assume(or_(alloc(s), eq(s.ext[0], I(0))))

def setc(u, f, this, k):
    saved_inv(u, this)
    n = u.int('len'); c = u.view('coeffs', n); u.assume(or_(alloc(c), eq(n, I(0))))
    return n, c
@unit(P, targets=PF + 'SetCoeffs')
def SetCoeffs(u):
    f = u.fn(PF + 'SetCoeffs', pred=lambda f: 'body' in f and kview(u, f)); this, _, _, k = base(u, f)
    n, c = setc(u, f, this, k); i = u.int('i')
    r = u.call(f, this, [c])
    u.throws_iff(r, ne(n, k), 'a vector of the wrong length raises, any other is accepted')
    s = u.load(this).f['savedCoeffs']
    u.post('stored coefficients equal the given ones', and_(eq(s.ext[0], k), eq(u.at(s, i), u.at(c, i))), hyps=[lt(i, k)])
    u.post('the numbers of inputs, outputs and coefficients are unchanged', eq(u.load(this).f['numCoeffs'], k))
@unit(P, targets=PF + 'WrapCoeffs')
def WrapCoeffs(u):
    f = u.fn(PF + 'WrapCoeffs', pred=lambda f: 'body' in f and kview(u, f)); this, _, _, k = base(u, f)
    n, c = setc(u, f, this, k); i = u.int('i')
    r = u.call(f, this, [c])
    u.throws_iff(r, ne(n, k), 'a vector of the wrong length raises, any other is accepted')
    s = u.load(this).f['savedCoeffs']
    u.post('the function follows the given memory itself', and_(B(s == c), eq(s.ext[0], k)))
@unit(P, targets=PF + 'CheckCoefficients')
def CheckCoefficients(u):
    f = u.fn(PF + 'CheckCoefficients', nargs=0); this, _, _, k = base(u, f); saved_inv(u, this)
    want = is_set(u, this)
    r = u.call(f, this, []); u.nothrow(r)
    u.post('true exactly when a vector of the right length is set or none is needed', iff(r.ret, want))
@unit(P, targets=PF + 'CheckCoefficients')
def CheckCoefficients_raises(u):
    f = u.fn(PF + 'CheckCoefficients', nargs=1); this, _, _, k = base(u, f); saved_inv(u, this)
    want = is_set(u, this)
    r = u.call(f, this, [Opq('str')])
    u.throws_iff(r, not_(want), 'raises exactly when no coefficients are set')
def iff(a, b): return and_(imp(a, b), imp(b, a))
for q in (0, 1):
    @unit(P, name='Coeffs' + (' const' if q else ''), targets=PF + 'Coeffs')
    def _(u, q=q):
        f = u.fn(PF + 'Coeffs', nargs=0, pred=lambda f: bool(f.get('const')) == bool(q)); this, _, _, k = base(u, f)
        s = u.load(this).f['savedCoeffs']; i = u.int('i')
        r = u.call(f, this, []); u.nothrow(r)
        v = u.load(r.ret) if isinstance(r.ret, Ref) else r.ret
        u.post('reports the stored vector', and_(eq(v.ext[0], s.ext[0]), eq(u.at(v, i), u.at(s, i))))

# ---- every public evaluation refuses to run without coefficients and otherwise returns what the implementation computes
ENTRY = [('ParameterizedFunctionBase', 'Evaluate', 'EvaluateImpl'), ('ParameterizedFunctionBase', 'Gradient', 'GradientImpl'), ('ParameterizedFunctionBase', 'CoeffGrad', 'CoeffGradImpl'),
         ('ConditionalMapBase', 'LogDeterminant', 'LogDeterminantImpl'), ('ConditionalMapBase', 'Inverse', 'InverseImpl'), ('ConditionalMapBase', 'LogDeterminantCoeffGrad', 'LogDeterminantCoeffGradImpl'),
         ('ConditionalMapBase', 'LogDeterminantInputGrad', 'LogDeterminantInputGradImpl')]
def strided(u, f):
    ts = [u.prog.unref(p['t']) for p in f['ps']]
    return all(t.get('tn') == 'Kokkos::View' and 'LayoutStride' in t.get('s', '') for t in ts) and ts
for cls, pub, impl in ENTRY:
    @unit(P, name='%s_%s' % (cls, pub), targets=N + cls + '::' + pub)
    def _(u, cls=cls, pub=pub, impl=impl):
        f = u.fn(N + cls + '::' + pub, pred=lambda f: 'body' in f and strided(u, f))
        np_ = u.int('np'); M = Maps(u, np_)
        n, m, k = u.int('n'), u.int('m'), u.int('nc'); u.assume(le(m, n))
        p, s = M.new('f', n, m, k, cls); this = p.ref
        sc = u.load(this).f['savedCoeffs']; sl = u.int('stored'); sc = View(sc.buf, sc.dims, [sl]); u.setf(this, savedCoeffs=sc); saved_inv(u, this)
        want = is_set(u, this)
        kinds, ok = IFACE[impl]
        vs = [u.view('arg%d' % q, {'n': n, 'm': m, 'x': sub(n, m)}[kd], np_) for q, kd in enumerate(kinds)]
        s0 = [u.load(v.buf) for v in vs]
        s.on[impl] = ([(lambda i, j, a=a: lapp(lapp(a, i), j)) for a in s0], lambda *a: app('out', 'R', *a))
        r = u.call(f, this, vs)
        u.throws_iff(r, not_(want), 'raises exactly when the coefficients have not been set')
        i, j = u.int('i'), u.int('j')
        if ok is None: u.post('one value per point, as computed by the implementation', and_(eq(r.ret.ext[0], np_), eq(u.at(r.ret, j), app('out', 'R', j))), hyps=[lt(j, np_)])
        else:
            R_ = {'n': n, 'm': m, 'k': k}[ok]
            u.post('the values computed by the implementation', and_(eq(r.ret.ext[0], R_), eq(r.ret.ext[1], np_), eq(u.at(r.ret, i, j), app('out', 'R', i, j))), hyps=[lt(i, R_), lt(j, np_)])

# ---- composite maps
def composite(u, cls, meth):
    f = u.fn(N + cls + '::' + meth, pred=lambda f: 'body' in f and kview(u, f)); this = u.obj(f)
    K = u.int('K', 1); c = Comps(u, K, u.int('np')); c.owner = this; c.wraps()
    u.setf(this, **{'comps_' if cls == 'TriangularMap' else 'maps_': c.vec}); k = u.int('nc'); u.setf(this, numCoeffs=k)
    u.assume(eq(k, c.Q(K))); u.assume(le(k, I(2**30))); u.prefix_sums(c.nco, K, 'coefficient counts')
    n, v = setc(u, f, this, k)
    return f, this, c, K, k, n, v
for cls in ('TriangularMap', 'ComposedMap'):
    for meth in ('SetCoeffs', 'WrapCoeffs'):
        @unit(P, name='%s_%s' % (cls, meth), targets=N + cls + '::' + meth)
        def _(u, cls=cls, meth=meth):
            f, this, c, K, k, n, v = composite(u, cls, meth); i = u.int('i')
            r = u.call(f, this, [v])
            u.throws_iff(r, ne(n, k), 'a vector of the wrong length raises, any other is accepted')
            s = u.load(this).f['savedCoeffs']
            if meth == 'WrapCoeffs': u.post('the composite follows the given memory itself', B(s == v))
            u.post('stored coefficients equal the given ones', and_(eq(s.ext[0], k), eq(u.at(s, i), u.at(v, i))), hyps=[lt(i, k)])
            c.check_wrapped(s, K)
    @unit(P, name='%s_constructor (moving coefficients)' % cls, targets=N + cls + '::' + cls)
    def _(u, cls=cls):
        f = u.fn(N + cls + '::' + cls, pred=lambda f: len(f['ps']) in (2, 3) and 'body' in f and not f.get('copy')); this = u.obj(f)
        K = u.int('K', 1); c = Comps(u, K, u.int('np')); c.owner = this; c.coeffs()
        u.prefix_sums(c.nco, K, 'coefficient counts'); u.assume(le(c.Q(K), I(2**30)))
        q = fresh('q', 'I'); u.assume(all_(q, I(0), K, and_(le(c.nin(q), I(2**30)), le(c.nout(q), I(2**30)), c.isset(q))))
        i = u.int('i'); u.assume(lt(i, c.Q(K))); q = fresh('q', 'I')
        u.induct('coefficient belongs to a component', K, lambda n: imp(and_(le(n, K), lt(i, c.Q(n))), any_(q, I(0), n, and_(ge(i, c.Q(q)), lt(i, add(c.Q(q), c.nco(q)))))))
        r = u.call(f, this, [c.vec, TRUE] + ([u.int('maxChecks', None)] if len(f['ps']) == 3 else []))
        s = u.load(this).f['savedCoeffs']
        u.post('coefficients of component k are copied to its slice', and_(eq(s.ext[0], c.Q(K)), eq(u.at(s, i), app('comp.coeff', 'R', i))))
        c.check_wrapped(s, K)
for meth in ('SetCoeffs', 'WrapCoeffs'):
    @unit(P, name='SummarizedMap_' + meth, targets=N + 'SummarizedMap::' + meth)
    def _(u, meth=meth):
        f = u.fn(N + 'SummarizedMap::' + meth, pred=lambda f: 'body' in f and kview(u, f)); this = u.obj(f)
        M = Maps(u, u.int('np')); k = u.int('nc'); cp, t = M.new('component', u.int('cn'), I(1), k); u.setf(this, comp_=cp, numCoeffs=k)
        n, v = setc(u, f, this, k); i = u.int('i')
        r = u.call(f, this, [v])
        u.throws_iff(r, ne(n, k), 'a vector of the wrong length raises, any other is accepted')
        s = u.load(this).f['savedCoeffs']; w = u.load(cp.ref).f['savedCoeffs']
        u.post('the component follows the coefficients of the map', and_(B(w == s), eq(s.ext[0], k), eq(u.at(s, i), u.at(v, i))), hyps=[lt(i, k)])
