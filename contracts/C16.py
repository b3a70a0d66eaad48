"""C16: pullback, pushforward and Gaussian densities."""
from unit import *
from spec_common import *
P = 'C16'; TU = 'C16'
N = 'mpart::'
F_ = lambda nm: (lambda *a: app(nm, 'R', *a))
strided = lambda u: (lambda f: 'body' in f and all(u.prog.unref(p['t']).get('tn') == 'Kokkos::View' for p in f['ps']))
eigen = lambda u: (lambda f: 'body' in f and not strided(u)(f))

class Density:
    """an abstract density of dimension d under the interface contract: value rho(j) and gradient drho(i,j) at the points it must be called at"""
    def __init__(self, u, d, cols):
        self.u, self.d, self.cols = u, d, cols
        tid = next(i for i, t in enumerate(u.prog.types) if t.get('tn') == N + 'DensityBase' and t['k'] == 'rec')
        self.ref = u.obj(tid, 'density'); self.ptr = ObjPtr(self.ref); u.setf(self.ref, dim_=d); self.at = None
        u.contract(N + 'DensityBase::LogDensityImpl', lambda ex, st, c: self.call(ex, st, c, False))
        u.contract(N + 'DensityBase::LogDensityInputGradImpl', lambda ex, st, c: self.call(ex, st, c, True))
    def call(self, ex, st, c, grad):
        if not (isinstance(c.obj, Ref) and c.obj.root == self.ref.root): return PASS
        u = self.u; p, o = [view_arg(ex, st, c, q) for q in range(2)]; i, j = fresh('i', 'I'), fresh('j', 'I')
        ex.oblige('precondition', st, and_(eq(p.ext[0], self.d), eq(p.ext[1], self.cols)), c.loc, 'the density is called with points of its dimension')
        ex.oblige('precondition', st, imp(and_(ge(i, I(0)), lt(i, self.d), ge(j, I(0)), lt(j, self.cols)), eq(u.at(p, i, j, st=st), self.at(i, j))), c.loc, 'the density is evaluated at the right points')
        disjoint(ex, st, p, o, c.loc, 'the output is not the memory of the points')
        if grad:
            ex.oblige('precondition', st, and_(eq(o.ext[0], self.d), eq(o.ext[1], self.cols)), c.loc, 'gradient output of the right shape')
            fill(ex, st, o, lambda i, j, old: app('drho', 'R', i, j))
        else:
            ex.oblige('precondition', st, eq(o.ext[0], self.cols), c.loc, 'one output per point')
            fill(ex, st, o, lambda j, old: app('rho', 'R', j))
        return None

def setup(u, cls, meth, pred):
    f = u.fn(N + cls + '::' + meth, pred=pred(u)); this = u.obj(f); g = WorkerSpec(); g.np = u.int('np')
    g.m, g.k = u.int('m'), u.int('nc')
    if cls == 'PushforwardDensity': g.n = g.m
    else: g.n = u.int('n'); u.assume(le(g.m, g.n))
    for t in (g.n, g.np, g.k): u.assume(le(t, I(2**30)))
    M = Maps(u, g.np); ptr, g.T = M.new('map', g.n, g.m, g.k); g.D = Density(u, g.m, g.np)
    u.ex.allocd[u.load(g.T.ref).f['savedCoeffs'].buf.root] = True            # coefficients have been set (else every call raises: C14)
    u.setf(this, map_=ptr, density_=g.D.ptr, dim_=g.m)
    g.p = u.view('pts', g.n, g.np); p0 = u.load(g.p.buf); g.x = lambda i, j: lapp(lapp(p0, i), j)
    return f, this, g
@unit(P, name='Pullback_LogDensity', targets=N + 'PullbackDensity::LogDensityImpl')
def _(u):
    f, this, g = setup(u, 'PullbackDensity', 'LogDensityImpl', strided); o = u.view('out', g.np); j = u.int('j')
    g.T.on['EvaluateImpl'] = ([g.x], F_('T')); g.T.on['LogDeterminantImpl'] = ([g.x], F_('ld')); g.D.at = F_('T')
    r = u.call(f, this, [g.p, o]); u.nothrow(r)
    u.post('reference log density at the mapped point plus the map log-determinant', eq(u.at(o, j), add(app('rho', 'R', j), app('ld', 'R', j))), hyps=[lt(j, g.np)])
def grads(u, g, coeff):
    g.T.on['EvaluateImpl'] = ([g.x], F_('T')); g.D.at = F_('T')
    if coeff: g.T.on['CoeffGradImpl'] = ([g.x, F_('drho')], F_('pull')); g.T.on['LogDeterminantCoeffGradImpl'] = ([g.x], F_('dld'))
    else: g.T.on['GradientImpl'] = ([g.x, F_('drho')], F_('pull')); g.T.on['LogDeterminantInputGradImpl'] = ([g.x], F_('dld'))
for meth, co in (('LogDensityInputGradImpl', False), ('LogDensityCoeffGradImpl', True)):
    @unit(P, name='Pullback_' + meth, targets=N + 'PullbackDensity::' + meth)
    def _(u, meth=meth, co=co):
        f, this, g = setup(u, 'PullbackDensity', meth, strided); R_ = g.k if co else g.n; o = u.view('out', R_, g.np); i, j = u.int('i'), u.int('j')
        grads(u, g, co)
        r = u.call(f, this, [g.p, o]); u.nothrow(r)
        u.post('chain rule: reference gradient at the mapped point pulled back, plus the log-determinant gradient', eq(u.at(o, i, j), add(app('pull', 'R', i, j), app('dld', 'R', i, j))), hyps=[lt(i, R_), lt(j, g.np)])
@unit(P, name='Pullback_LogDensityCoeffGrad', targets=N + 'PullbackDensity::LogDensityCoeffGrad')
def _(u):
    f, this, g = setup(u, 'PullbackDensity', 'LogDensityCoeffGrad', strided); i, j = u.int('i'), u.int('j'); grads(u, g, True)
    r = u.call(f, this, [g.p]); u.nothrow(r)
    u.post('one row per coefficient', and_(eq(r.ret.ext[0], g.k), eq(r.ret.ext[1], g.np), eq(u.at(r.ret, i, j), add(app('pull', 'R', i, j), app('dld', 'R', i, j)))), hyps=[lt(i, g.k), lt(j, g.np)])
for meth, grad in (('LogDensity', False), ('LogDensityInputGrad', True)):
    @unit(P, name='DensityBase_' + meth, targets=N + 'DensityBase::' + meth)
    def _(u, meth=meth, grad=grad):
        f = u.fn(N + 'DensityBase::' + meth, pred=strided(u)); d, np_ = u.int('d'), u.int('np'); D = Density(u, d, np_)
        p = u.view('pts', d, np_); p0 = u.load(p.buf); D.at = lambda i, j: lapp(lapp(p0, i), j); i, j = u.int('i'), u.int('j')
        r = u.call(f, D.ref, [p]); u.nothrow(r)
        if grad: u.post('what the implementation computes', and_(eq(r.ret.ext[0], d), eq(r.ret.ext[1], np_), eq(u.at(r.ret, i, j), app('drho', 'R', i, j))), hyps=[lt(i, d), lt(j, np_)])
        else: u.post('what the implementation computes', and_(eq(r.ret.ext[0], np_), eq(u.at(r.ret, j), app('rho', 'R', j))), hyps=[lt(j, np_)])
@unit(P, name='Pushforward_LogDensity', targets=N + 'PushforwardDensity::LogDensityImpl')
def _(u):
    f, this, g = setup(u, 'PushforwardDensity', 'LogDensityImpl', strided); o = u.view('out', g.np); j = u.int('j')
    g.T.on['InverseImpl'] = ([lambda i, j: R(0), g.x], F_('Tinv')); g.T.on['LogDeterminantImpl'] = ([F_('Tinv')], F_('ld')); g.D.at = F_('Tinv')
    r = u.call(f, this, [g.p, o]); u.nothrow(r)
    u.post('reference log density at the inverse point minus the log-determinant there', eq(u.at(o, j), sub(app('rho', 'R', j), app('ld', 'R', j))), hyps=[lt(j, g.np)])
@unit(P, name='Pullback_constructor', targets=N + 'PullbackDensity::PullbackDensity')
def _(u):
    f = u.fn(N + 'PullbackDensity::PullbackDensity', pred=lambda f: 'body' in f and len(f['ps']) == 2); this = u.obj(f)
    n, m, d = u.int('n'), u.int('m'), u.int('d'); M = Maps(u, u.int('np')); T, _ = M.new('map', n, m, u.int('nc')); D = Density(u, d, u.int('np'))
    r = u.call(f, this, [T, D.ptr]); u.throws_iff(r, ne(m, d), 'raises exactly when the map output is not of the dimension of the density')
    F = u.load(this).f
    u.post('keeps the given map and density', B(F['map_'] == T and F['density_'] == D.ptr))
@unit(P, name='Pushforward_constructor', targets=N + 'PushforwardDensity::PushforwardDensity')
def _(u):
    f = u.fn(N + 'PushforwardDensity::PushforwardDensity', pred=lambda f: 'body' in f and len(f['ps']) == 2); this = u.obj(f)
    n, m, d = u.int('n'), u.int('m'), u.int('d'); M = Maps(u, u.int('np')); T, _ = M.new('map', n, m, u.int('nc')); D = Density(u, d, u.int('np'))
    r = u.call(f, this, [T, D.ptr]); u.throws_iff(r, or_(ne(n, d), ne(m, n)), 'raises exactly when the map is not square of the dimension of the density')
    F = u.load(this).f
    u.post('keeps the given map and density', B(F['map_'] == T and F['density_'] == D.ptr))

# ---------------------------------------------------------------- Gaussian
def cholesky(u, d, cov):
    """Cholesky factorisation of the d x d covariance: S = L L^T; solveInPlaceL gives z with L z = b, solveInPlace gives y with S y = b"""
    C = N + 'Cholesky::'; i, j, k = fresh('i', 'I'), fresh('j', 'I'), fresh('k', 'I')
    L = lambda i, k: app('chol', 'R', i, k); S = cov
    def comp(ex, st, c):
        a = view_arg(ex, st, c, 0)
        ex.oblige('precondition', st, and_(eq(a.ext[0], d), eq(a.ext[1], d)), c.loc, 'the factorised matrix is the covariance: shape')
        ex.oblige('precondition', st, all_(i, I(0), d, all_(j, I(0), d, eq(u.at(a, i, j, st=st), S(i, j)))), c.loc, 'the factorised matrix is the covariance')
        st.ghost['chol'] = TRUE; return None
    def det(ex, st, c):
        ex.oblige('precondition', st, st.ghost.get('chol', FALSE), c.loc, 'the factorisation was computed'); return sym('detS', 'R')
    def solve(nm, A):
        def h(ex, st, c):
            x = view_arg(ex, st, c, 0)
            ex.oblige('precondition', st, and_(eq(x.ext[0], d), st.ghost.get('chol', TRUE)), c.loc, 'right-hand side with as many rows as the covariance')
            old = ex.load(st, x.buf); oldat = lambda a, b: rd(old, x.at([a, b]).steps[len(x.buf.steps):])
            fill(ex, st, x, lambda a, b, o: app(nm, 'R', a, b))
            ex.hyps.append(all_(i, I(0), d, all_(j, I(0), x.ext[1], eq(sum_(k, I(0), d, mul(A(i, k), app(nm, 'R', k, j))), oldat(i, j)))))
            return None
        return h
    u.contract(C + 'compute', comp); u.contract(C + 'determinant', det)
    u.contract(C + 'solveInPlaceL', solve('white', L)); u.contract(C + 'solveInPlace', solve('prec', S))
    return L
def gauss(u, meth, mean, ident):
    f = u.fn(N + 'GaussianSamplerDensity::' + meth, pred=lambda f: 'body' in f); this = u.obj(f); g = WorkerSpec()
    g.d, g.np = u.int('d'), u.int('np'); u.assume(le(g.d, I(2**30))); u.assume(le(g.np, I(2**30)))
    mu = u.view('mean', g.d if mean else I(0)); 
    if mean: u.assume(ge(g.d, I(1)))
    g.S = lambda i, k: app('cov', 'R', i, k); g.L = cholesky(u, g.d, g.S)
    g.logdet = R(0) if ident else u.real('logDet'); g.tau = u.real('logtau')
    u.setf(this, mean_=mu, idCov_=B(ident), logDetCov_=g.logdet, logtau_=g.tau, dim_=g.d)
    g.rows = u.int('rows'); g.p = u.view('pts', g.rows, g.np); g.p0 = u.load(g.p.buf)
    g.dif = lambda i, j: sub(lapp(lapp(g.p0, i), j), u.at(mu, i) if mean else R(0))
    return f, this, g
for mean in (False, True):
    for ident in (True, False):
        nm = '%s mean, %s covariance' % ('given' if mean else 'zero', 'identity' if ident else 'dense')
        @unit(P, name='Gaussian_LogDensity (%s)' % nm, targets=N + 'GaussianSamplerDensity::LogDensityImpl')
        def _(u, mean=mean, ident=ident):
            f, this, g = gauss(u, 'LogDensityImpl', mean, ident); o = u.view('out', g.np); i, j, k = u.int('i'), u.int('j'), fresh('k', 'I')
            r = u.call(f, this, [g.p, o]); u.throws_iff(r, ne(g.rows, g.d), 'raises exactly when the points are not of the dimension of the Gaussian')
            z = g.dif if ident else F_('white')
            u.post('-1/2 |z|^2 - 1/2 (d log 2 pi + log det S) with %s' % ('z = x - mean' if ident else 'L z = x - mean'),
                   eq(u.at(o, j), sub(mul(num(-0.5, 'R'), sum_(k, I(0), g.d, mul(z(k, j), z(k, j)))), mul(num(0.5, 'R'), add(mul(toreal(g.d), g.tau), g.logdet)))), hyps=[lt(j, g.np)])
            if not ident: u.post('L z = x - mean', eq(sum_(k, I(0), g.d, mul(g.L(i, k), app('white', 'R', k, j))), g.dif(i, j)), hyps=[lt(i, g.d), lt(j, g.np)])
        @unit(P, name='Gaussian_LogDensityInputGrad (%s)' % nm, targets=N + 'GaussianSamplerDensity::LogDensityInputGradImpl')
        def _(u, mean=mean, ident=ident):
            f, this, g = gauss(u, 'LogDensityInputGradImpl', mean, ident); o = u.view('out', g.d, g.np); i, j, k = u.int('i'), u.int('j'), fresh('k', 'I')
            r = u.call(f, this, [g.p, o]); u.throws_iff(r, ne(g.rows, g.d), 'raises exactly when the points are not of the dimension of the Gaussian')
            e = u.at(o, i, j) if ident else sum_(k, I(0), g.d, mul(g.S(i, k), u.at(o, k, j)))
            u.post('S gradient = -(x - mean)', eq(e, neg(g.dif(i, j))), hyps=[lt(i, g.d), lt(j, g.np)])
for mean in (False, True):
    for cov in (False, True):
        @unit(P, name='Gaussian_constructor (%s)' % (', '.join(x for x, y in (('mean', mean), ('covariance', cov)) if y) or 'dimension'), targets=N + 'GaussianSamplerDensity::GaussianSamplerDensity')
        def _(u, mean=mean, cov=cov):
            want = [v for v, y in ((1, mean), (2, cov)) if y]
            rank = lambda p: {'Kokkos::View': lambda t: t.get('s', '').count('*')}.get(u.prog.unref(p['t']).get('tn'), lambda t: 0)(u.prog.unref(p['t']))
            f = u.fn(N + 'GaussianSamplerDensity::GaussianSamplerDensity', pred=lambda f: 'body' in f and [rank(p) for p in f['ps']] == (want or [0])); this = u.obj(f)
            d = u.int('d', 1); u.assume(le(d, I(2**30))); S = lambda i, k: app('cov', 'R', i, k); cholesky(u, d, S)
            u.contract(N + 'SampleGenerator::SampleGenerator', lambda ex, st, c: None)
            mu, cv = u.view('mean', d), u.view('cov', d, d)
            r = u.call(f, this, [v for v, y in ((mu, mean), (cv, cov)) if y] or [d]); u.nothrow(r)
            F = u.load(this).f; i = u.int('i')
            u.post('mean and covariance of the density', and_(B(F['mean_'] == mu) if mean else eq(F['mean_'].ext[0], I(0)), eq(F['idCov_'], B(not cov)), eq(F['logDetCov_'], app('log', 'R', sym('detS', 'R')) if cov else R(0)), eq(F['dim_'], d)))
for nm in ('sum', 'norm'):
    for D_ in (0, 1):
        cls = u_ = None
        @unit(P, name='ReduceDim<%s,%d>' % (nm, D_), targets=N + 'ReduceDim')
        def _(u, nm=nm, D_=D_):
            """the pieces of an array reduction: zero initialisation, additive join, additive per-index contribution"""
            tn = 'mpart::ReduceDim<mpart::ReduceDimMap::%s, Kokkos::HostSpace%s>::' % (nm, ', 0' if D_ == 0 else '')
            get = lambda m: next(f for f in u.prog.fns.values() if f['q'] == tn + m and 'body' in f)
            m, n, al = u.int('m'), u.int('n'), u.real('alpha'); A = u.view('A', m, n); vc = n if D_ == 0 else m
            for t in (m, n): u.assume(le(t, I(2**30)))
            f = get('ReduceDim'); this = u.obj(f); r = u.call(f, this, [A, al]); u.nothrow(r)
            i, q = u.int('i'), u.int('idx'); u.assume(lt(i, vc)); u.assume(lt(q, m if D_ == 0 else n))
            dst, src = u.array('dst', ext=vc), u.array('src', ext=vc); z = u.array('z', ext=vc); at = lambda p: u.load(p.base.sub(('ix', i)))
            d0, s0 = at(dst), at(src)
            u.call(get('join'), this, [dst, src]); u.post('join adds', eq(at(dst), add(d0, s0)))
            u.call(get('init'), this, [z]); u.post('init zeroes', eq(at(z), R(0)))
            a = u.at(A, q, i) if D_ == 0 else u.at(A, i, q); c0 = at(src)
            u.call(get('operator()'), this, [q, src]); u.post('one index adds its own contribution', eq(at(src), add(c0, mul(al, mul(a, a) if nm == 'norm' else a))))
