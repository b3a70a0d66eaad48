"""C17: the Kullback-Leibler training objective and its gradient."""
from unit import *
from spec_common import *
P = 'C17'; TU = 'C17'
N = 'mpart::'
strided = lambda u: (lambda f: 'body' in f and all(u.prog.unref(p['t']).get('tn') == 'Kokkos::View' for p in f['ps']))
rho = lambda j: app('logdensity', 'R', j)
G = lambda i, j: app('dlogdensity', 'R', i, j)
big = lambda u, *ts: [u.assume(le(t, I(2**30))) for t in ts]
def typ(u, nm): return next(i for i, t in enumerate(u.prog.types) if t.get('tn') == N + nm and t['k'] == 'rec')
class KL:
    """a KL objective over any density of dimension d, any map n -> d with k coefficients, any non-empty data set"""
    def __init__(self, u, meth):
        g = self; g.u = u
        g.f = u.fn(N + 'KLObjective::' + meth, pred=lambda f: 'body' in f); g.this = u.obj(g.f)
        g.n, g.d, g.k, g.np = u.int('n'), u.int('d'), u.int('nc'), u.int('np', 1); big(u, g.n, g.d, g.k, g.np)
        g.data = u.view('data', g.n, g.np); g.M = Maps(u, g.np); g.map, g.T = g.M.new('map', g.n, g.d, g.k)
        g.dref = u.obj(typ(u, 'DensityBase'), 'density'); g.density = ObjPtr(g.dref); u.setf(g.dref, dim_=g.d); u.setf(g.this, density_=g.density)
        u.contract(N + 'DensityBase::LogDensity', g.value); u.contract(N + 'PullbackDensity::LogDensityCoeffGrad', g.grad)
    def check(self, ex, st, c):
        F = ex.val(st, c.obj).f; v = view_arg(ex, st, c, 0)
        ex.oblige('precondition', st, B(F['map_'] == self.map and F['density_'] == self.density), c.loc, 'the pullback of the density of the objective by the given map')
        ex.oblige('precondition', st, B(v == self.data), c.loc, 'evaluated at the given data')
    def value(self, ex, st, c):            # proved: C16 DensityBase_LogDensity, Pullback_LogDensity
        self.check(ex, st, c); o = self.u.view('lp', self.np); w = fresh('w', 'I')
        ex.store(st, o.buf, lam(w, rho(w))); return o
    def grad(self, ex, st, c):             # proved: C16 Pullback_LogDensityCoeffGrad
        self.check(ex, st, c); o = self.u.view('glp', self.k, self.np); w, v = fresh('w', 'I'), fresh('v', 'I')
        ex.store(st, o.buf, lam(w, lam(v, G(w, v)))); return o
    def obj(self):
        j = fresh('j', 'I'); return div(neg(sum_(j, I(0), self.np, rho(j))), toreal(self.np))
    def dobj(self, i):
        j = fresh('j', 'I'); return div(neg(sum_(j, I(0), self.np, G(i, j))), toreal(self.np))
VAL = 'minus the average of the pulled-back log density over the samples'
GRD = 'minus the average over the samples of the coefficient gradient of the pulled-back log density: the derivative of the value, term by term'
@unit(P, name='KL_ObjectiveImpl', targets=N + 'KLObjective::ObjectiveImpl')
def _(u):
    g = KL(u, 'ObjectiveImpl'); r = u.call(g.f, g.this, [g.data, g.map]); u.nothrow(r); u.post(VAL, eq(r.ret, g.obj()))
@unit(P, name='KL_CoeffGradImpl', targets=N + 'KLObjective::CoeffGradImpl')
def _(u):
    g = KL(u, 'CoeffGradImpl'); o = u.view('grad', g.k); i = u.int('i')
    r = u.call(g.f, g.this, [g.data, o, g.map]); u.nothrow(r); u.post(GRD, eq(u.at(o, i), g.dobj(i)), hyps=[lt(i, g.k)])
@unit(P, name='KL_ObjectivePlusCoeffGradImpl', targets=N + 'KLObjective::ObjectivePlusCoeffGradImpl')
def _(u):
    g = KL(u, 'ObjectivePlusCoeffGradImpl'); o = u.view('grad', g.k); i = u.int('i')
    r = u.call(g.f, g.this, [g.data, o, g.map]); u.nothrow(r); u.post(VAL, eq(r.ret, g.obj())); u.post(GRD, eq(u.at(o, i), g.dobj(i)), hyps=[lt(i, g.k)])
@unit(P, name='KL_rejects_map', targets=N + 'KLObjective::ObjectiveImpl')
def _(u):
    g = KL(u, 'ObjectiveImpl'); e = u.int('e'); u.setf(g.dref, dim_=e)
    r = u.call(g.f, g.this, [g.data, g.map]); u.throws_iff(r, ne(e, g.d), 'raises exactly when the map output is not of the dimension of the density')

class Obj:
    """an abstract objective: value F(c, data) and gradient dF as functions of the coefficients in the map when it is evaluated"""
    def __init__(self, u, meth, pred=None):
        g = self; g.u = u
        g.f = u.fn(N + 'MapObjective::' + meth, pred=pred or (lambda f: 'body' in f)); g.this = u.obj(g.f); g.calls = []
        g.n, g.k, g.np, g.tn, g.tp = u.int('n'), u.int('nc'), u.int('np'), u.int('testrows'), u.int('testcols'); big(u, g.n, g.k, g.np)
        g.train, g.test = u.view('train', g.n, g.np), u.view('test', g.tn, g.tp); u.setf(g.this, train_=g.train, test_=g.test)
        g.M = Maps(u, g.np); g.map, g.T = g.M.new('map', g.n, g.n, g.k)
        u.contract(N + 'MapObjective::ObjectiveImpl', lambda ex, st, c: g.handle(ex, st, c, 'v'))
        u.contract(N + 'MapObjective::CoeffGradImpl', lambda ex, st, c: g.handle(ex, st, c, 'g'))
        if meth != 'ObjectivePlusCoeffGradImpl': u.contract(N + 'MapObjective::ObjectivePlusCoeffGradImpl', lambda ex, st, c: g.handle(ex, st, c, 'vg'))
    def coeffs(self, ex, st):
        v = ex.load(st, self.T.ref).f['savedCoeffs']; w = fresh('w', 'I'); return v.ext[0], lam(w, ex.load(st, v.at([w])))
    def handle(self, ex, st, c, kind):
        a = [ex.val(st, x) for x in c.args]; d = a[0]
        ex.oblige('precondition', st, B(a[-1] == self.map), c.loc, 'the given map is evaluated')
        nm = 'train' if d == self.want else 'other'
        ex.oblige('precondition', st, B(d == self.want), c.loc, 'evaluated on the right data set')
        n, cf = self.coeffs(ex, st)
        if 'g' in kind:
            o = a[1]; ex.oblige('precondition', st, eq(o.ext[0], self.k), c.loc, 'one gradient entry per coefficient')
            fill(ex, st, o, lambda i, old: app('dF', 'R', i, self.id(ex, st)))
        return app('F', 'R', self.id(ex, st)) if 'v' in kind else None
    def id(self, ex, st): return self.coeffs(ex, st)[1]
F_of = lambda cf: app('F', 'R', cf)
@unit(P, name='TrainError', targets=N + 'MapObjective::TrainError')
def _(u):
    g = Obj(u, 'TrainError'); g.want = g.train; cf = g.id(u.ex, u.st); r = u.call(g.f, g.this, [g.map]); u.nothrow(r); u.post('the objective on the training data', eq(r.ret, F_of(cf)))
@unit(P, name='TestError', targets=N + 'MapObjective::TestError')
def _(u):
    g = Obj(u, 'TestError'); g.want = g.test; cf = g.id(u.ex, u.st); r = u.call(g.f, g.this, [g.map])
    u.throws_iff(r, eq(g.tn, I(0)), 'raises exactly when there is no test data'); u.post('the objective on the test data', eq(r.ret, F_of(cf)), hyps=[gt(g.tn, I(0))])
@unit(P, name='TrainCoeffGradImpl', targets=N + 'MapObjective::TrainCoeffGradImpl')
def _(u):
    g = Obj(u, 'TrainCoeffGradImpl'); g.want = g.train; cf = g.id(u.ex, u.st); o = u.view('grad', g.k); i = u.int('i'); r = u.call(g.f, g.this, [g.map, o]); u.nothrow(r)
    u.post('the gradient on the training data', eq(u.at(o, i), app('dF', 'R', i, cf)), hyps=[lt(i, g.k)])
@unit(P, name='TrainCoeffGrad', targets=N + 'MapObjective::TrainCoeffGrad')
def _(u):
    g = Obj(u, 'TrainCoeffGrad'); g.want = g.train; cf = g.id(u.ex, u.st); i = u.int('i'); r = u.call(g.f, g.this, [g.map]); u.nothrow(r)
    u.post('the gradient on the training data, one entry per coefficient', and_(eq(r.ret.ext[0], g.k), eq(u.at(r.ret, i), app('dF', 'R', i, cf))), hyps=[lt(i, g.k)])
@unit(P, name='ObjectivePlusCoeffGradImpl (default)', targets=N + 'MapObjective::ObjectivePlusCoeffGradImpl')
def _(u):
    g = Obj(u, 'ObjectivePlusCoeffGradImpl'); g.want = u.view('data', g.n, g.np); cf = g.id(u.ex, u.st); o = u.view('grad', g.k); i = u.int('i')
    r = u.call(g.f, g.this, [g.want, o, g.map]); u.nothrow(r)
    u.post('the same value as the objective', eq(r.ret, F_of(cf))); u.post('the same gradient as the gradient alone', eq(u.at(o, i), app('dF', 'R', i, cf)), hyps=[lt(i, g.k)])
for null in (False, True):
    @unit(P, name='operator() (%s)' % ('no gradient requested' if null else 'with gradient'), targets=N + 'MapObjective::operator()')
    def _(u, null=null):
        g = Obj(u, 'operator()'); g.want = g.train; x = u.array('x', ext=g.k); gr = u.array('g', ext=g.k); i = u.int('i'); w = fresh('w', 'I')
        x0 = u.load(x.base)
        r = u.call(g.f, g.this, [g.k, x, Null() if null else gr, g.map]); u.nothrow(r)
        m, cf = g.coeffs(u.ex, r.st)
        u.post('the map has the given coefficients', and_(eq(m, g.k), eq(lapp(cf, i), lapp(x0, i))), hyps=[lt(i, g.k)])
        u.post('the training objective at these coefficients', eq(r.ret, F_of(cf)))
        if not null: u.post('and its gradient', eq(u.at(gr, i), app('dF', 'R', i, cf)), hyps=[lt(i, g.k)])
        u.post('the given coefficients are not modified', eq(u.at(x, i), lapp(x0, i)), hyps=[lt(i, g.k)])
for meth, nps in (('KLObjective', 2), ('KLObjective', 3)):
    @unit(P, name='KL_constructor/%d' % nps, targets=N + 'KLObjective::KLObjective')
    def _(u, nps=nps):
        f = u.fn(N + 'KLObjective::KLObjective', pred=lambda f: 'body' in f and len(f['ps']) == nps and u.prog.unref(f['ps'][0]['t']).get('tn') == 'Kokkos::View'); this = u.obj(f)
        n, np_, d = u.int('n'), u.int('np'), u.int('d'); big(u, n, np_, d); a, b = u.view('train', n, np_), u.view('test', n, u.int('nt')); dr = u.obj(typ(u, 'DensityBase'), 'density'); u.setf(dr, dim_=d)
        r = u.call(f, this, [a, b, ObjPtr(dr)] if nps == 3 else [a, ObjPtr(dr)]); u.nothrow(r)
        F = u.load(this).f
        u.post('keeps the data and the density', and_(B(F['train_'] == a), B(F['density_'] == ObjPtr(dr)), B(F['test_'] == b) if nps == 3 else eq(F['test_'].ext[0], I(0))))
        for nm, e in (('InputDim', n), ('NumSamples', np_)):
            q = u.call(u.fn(N + 'MapObjective::' + nm, pred=lambda f: 'body' in f), this, []); u.post(nm, eq(q.ret, e))
        q = u.call(u.fn(N + 'KLObjective::MapOutputDim', pred=lambda f: 'body' in f), this, []); u.post('MapOutputDim', eq(q.ret, d))
for nps in (2, 3):
    @unit(P, name='CreateGaussianKLObjective/%d' % nps, targets=N + 'ObjectiveFactory::CreateGaussianKLObjective')
    def _(u, nps=nps):
        f = u.fn(N + 'ObjectiveFactory::CreateGaussianKLObjective', pred=lambda f: 'body' in f and len(f['ps']) == nps)
        n, np_, d = u.int('n', 1), u.int('np'), u.int('dim'); big(u, n, np_, d); a, b = u.view('train', n, np_), u.view('test', n, u.int('nt'))
        r = u.call(f, None, ([a, b] if nps == 3 else [a]) + [d]); u.nothrow(r)
        F = u.ex.val(r.st, r.ret.ref).f; D = u.ex.val(r.st, F['density_'].ref).f
        u.post('keeps the data', and_(B(F['train_'] == a), B(F['test_'] == b) if nps == 3 else eq(F['test_'].ext[0], I(0))))
        u.post('standard normal density of the given dimension, or of the dimension of the data when none is given', and_(eq(D['dim_'], ite(eq(d, I(0)), n, d)), eq(D['mean_'].ext[0], I(0)), D['idCov_'], eq(D['logDetCov_'], R(0))))
