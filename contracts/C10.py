"""C10: monotone components for any expansion, bijector and quadrature rule, through the contracts of those."""
from unit import *
from spec_common import *
P = 'C10'; TU = 'C10'
N = 'mpart::MonotoneComponent::'
NONE, PAR, DIAG, DIAG2, MIXED, INPUT, MIXIN = range(7)
G = [lambda x: app('g', 'R', x), lambda x: app('dg', 'R', x), lambda x: app('ddg', 'R', x)]
calc.PARTIAL['g'] = lambda x: [G[1](x)]; calc.PARTIAL['dg'] = lambda x: [G[2](x)]
W = lambda q: app('weight', 'R', q); T_ = lambda q: app('node', 'R', q)
class Exp:
    """an abstract expansion: f and its derivatives as functions of the leading inputs z, the last input x, for the coefficients of the component"""
    def __init__(self, u, meth, nargs, pred=lambda f: 'body' in f):
        g = self; g.u = u
        g.f = u.fn(N + meth, nargs=nargs, pred=pred); g.this = u.obj(g.f)
        g.d, g.N, g.np, g.nq = u.int('dim', 1), u.int('terms', 1), u.int('np', 1), u.int('nodes')
        for t in (g.d, g.N, g.np): u.assume(le(t, I(2**30)))
        g.c = u.view('c', g.N); g.pts = u.view('pts', g.d, g.np); g.nug = u.real('nugget'); u.assume(ge(g.nug, R(0)))
        i = fresh('i', 'I'); g.C0 = u.load(g.c.buf)
        u.setf(g.this, quad_=Rec('AbstractQuadrature', dict(fdim_=u.int('fdim'))), dim_=g.d, nugget_=g.nug, inputDim=g.d, outputDim=I(1), numCoeffs=g.N, savedCoeffs=g.c)
        # the expansion at (z, x): value and last-input derivatives, their coefficient gradients and input gradients
        g.D = [lambda z, x, k=k: app('D%d' % k, 'R', z, x) for k in range(3)]
        g.DC = [lambda z, x, t, k=k: app('DC%d' % k, 'R', z, x, t) for k in range(3)]
        g.IG = lambda z, x, i: ite(eq(i, sub(g.d, I(1))), g.D[1](z, x), app('IG', 'R', z, x, i))
        g.MG = lambda z, x, i: ite(eq(i, sub(g.d, I(1))), g.D[2](z, x), app('MG', 'R', z, x, i))
        E = 'AbstractExpansion::'
        u.contract(E + 'NumCoeffs', lambda ex, st, c: g.N); u.contract(E + 'InputSize', lambda ex, st, c: g.d); u.contract(E + 'CacheSize', lambda ex, st, c: app('cachesize', 'I', g.N)); u.assume(ge(app('cachesize', 'I', g.N), I(0)))
        u.contract(E + 'FillCache1', g.fill1); u.contract(E + 'FillCache2', g.fill2)
        u.contract(E + 'Evaluate', lambda ex, st, c: g.read(ex, st, c, 0)); u.contract(E + 'CoeffDerivative', lambda ex, st, c: g.read(ex, st, c, 0, g.DC[0], g.N, c.args[2]))
        u.contract(E + 'DiagonalDerivative', lambda ex, st, c: g.read(ex, st, c, g.order(ex, st, c)))
        u.contract(E + 'MixedCoeffDerivative', lambda ex, st, c: g.read(ex, st, c, g.order(ex, st, c), g.DC[g.order(ex, st, c)], g.N, c.args[3]))
        u.contract(E + 'InputDerivative', lambda ex, st, c: g.read(ex, st, c, 0, g.IG, g.d, c.args[2], lev=1, full=True))
        u.contract(E + 'MixedInputDerivative', lambda ex, st, c: g.read(ex, st, c, 1, g.MG, g.d, c.args[2], lev=2, full=True))
        for k, nm in enumerate(('Evaluate', 'Derivative', 'SecondDerivative')): u.contract('AbstractBijector::' + nm, lambda ex, st, c, k=k: G[k](ex.val(st, c.args[0])))
        x = fresh('x', 'R'); u.assume(all_(x, None, None, gt(G[0](x), R(0))))
        u.contract('std::isinf', lambda ex, st, c: FALSE); u.contract('isinf', lambda ex, st, c: FALSE); u.contract('std::isnan', lambda ex, st, c: FALSE); u.contract('isnan', lambda ex, st, c: FALSE)
        Qn = 'AbstractQuadrature::'
        u.contract(Qn + 'SetDim', lambda ex, st, c: ex.store(st, c.obj.sub('fdim_'), ex.val(st, c.args[0])))
        u.contract(Qn + 'WorkspaceSize', lambda ex, st, c: app('worksize', 'I', ex.val(st, c.obj).f['fdim_'])); w = fresh('w', 'I'); u.assume(all_(w, None, None, ge(app('worksize', 'I', w), I(0))))
        u.contract(Qn + 'Integrate', g.integrate)
    # ---- the cache: which point and how many derivatives it currently holds
    def cache(self, ex, st, c):
        p = ex.val(st, c.args[0])
        if not (isinstance(p, Ptr) and p.off is I(0)): raise Unsupported('cache pointer %r' % (p,))
        return p.base
    def lead(self, st, v):
        w = fresh('w', 'I'); return lam(w, ite(and_(ge(w, I(0)), lt(w, sub(self.d, I(1)))), self.u.at(v, w, st=st), R(0)))
    def flag(self, ex, st, a):
        t = ex.val(st, a)
        if not isnum(t): raise Unsupported('derivative flag %r' % (t,))
        return int(val(t))
    def order(self, ex, st, c): 
        k = self.flag(ex, st, c.args[2])
        if k not in (1, 2): raise Unsupported('derivative order')
        return k
    def fill1(self, ex, st, c):
        r = self.cache(ex, st, c); v = view_arg(ex, st, c, 1)
        ex.oblige('precondition', st, ge(v.ext[0], sub(self.d, I(1))), c.loc, 'FillCache1: the point has the leading coordinates')
        ex.oblige('precondition', st, ge(st.ghost.get(('ext', r.root), I(0)), app('cachesize', 'I', self.N)), c.loc, 'FillCache1: the cache has the size the expansion asked for')
        ex.store(st, r, Opq('filled', (self.lead(st, v), self.flag(ex, st, c.args[2]) in (INPUT, MIXIN), None, 0))); return None
    def state(self, ex, st, c):
        o = ex.load(st, self.cache(ex, st, c))
        if not (isinstance(o, Opq) and o.tag == 'filled'): return None
        return o.data
    def fill2(self, ex, st, c):
        s = self.state(ex, st, c); k = {NONE: 0, PAR: 0, DIAG: 1, INPUT: 1, DIAG2: 2, MIXIN: 2}.get(self.flag(ex, st, c.args[3]))
        ex.oblige('precondition', st, B(s is not None), c.loc, 'FillCache2 completes a cache started by FillCache1')
        if s is None or k is None: return None
        ex.store(st, self.cache(ex, st, c), Opq('filled', (s[0], s[1], ex.val(st, c.args[2]), k))); return None
    def read(self, ex, st, c, k, grad=None, n=None, gv=None, lev=None, full=False):
        s = self.state(ex, st, c); co = view_arg(ex, st, c, 1); i = fresh('i', 'I')
        ok = s is not None and s[2] is not None and s[3] >= (k if lev is None else lev) and (s[1] or not full)
        ex.oblige('precondition', st, B(ok), c.loc, 'the cache holds the quantities this derivative needs')
        if not ok: return fresh('unfilled', 'R')
        ex.oblige('precondition', st, and_(eq(co.ext[0], self.N), imp(and_(ge(i, I(0)), lt(i, self.N)), eq(self.u.at(co, i, st=st), lapp(self.C0, i)))), c.loc, 'evaluated with the coefficients of the component')
        if grad is not None:
            v = ex.val(st, gv)
            ex.oblige('precondition', st, ge(v.ext[0], n), c.loc, 'room for the gradient')
            fill(ex, st, View(v.buf, v.dims, (n,)), lambda i, old: grad(s[0], s[2], i))
        return self.D[k](s[0], s[2])
    # ---- quadrature: weighted sum of the integrand over the nodes, component by component
    def integrate(self, ex, st, c):
        u = self.u; w = ex.val(st, c.args[0]); fn, lo, hi, res = c.args[1], ex.val(st, c.args[2]), ex.val(st, c.args[3]), ex.val(st, c.args[4]); n = ex.val(st, c.obj).f['fdim_']
        ex.oblige('precondition', st, and_(eq(lo, R(0)), eq(hi, R(1))), c.loc, 'integration over the unit interval')
        if isinstance(w, Ptr): ex.oblige('precondition', st, ge(st.ghost.get(('ext', w.base.root), I(0)), add(w.off, app('worksize', 'I', n))), c.loc, 'the workspace has the size the rule asked for')
        q = fresh('q', 'I'); out = ex.newroot(st, fun('unset', 'I', 'R'), 'fval'); st.ghost[('ext', out.root)] = n
        if len(c.args) != 5: raise Unsupported('Integrate')
        ex.callval(ex.load(st, fn) if isinstance(fn, Ref) else fn, [T_(q), Ptr(out, I(0))], st, c.fr)
        val_ = lambda j: sum_(q, I(0), self.nq, mul(W(q), lapp(ex.load(st, out), j)))
        if isinstance(res, ObjPtr):
            ex.oblige('precondition', st, le(n, I(1)), c.loc, 'a single value is integrated into a scalar'); ex.store(st, res.ref, val_(I(0)))
        else: write_cells(ex, st, res, n, val_)
        return None
    # ---- specification
    def S(self, f): q = fresh('q', 'I'); return sum_(q, I(0), self.nq, mul(W(q), f(T_(q))))
    def z(self, j): return self.lead(self.u.st, View(self.pts.buf, [('a', I(0)), ('f', j)], (self.d,)))
    def x(self, j): return self.u.at(self.pts, sub(self.d, I(1)), j)
    def T(self, z, x): return add(self.D[0](z, R(0)), self.S(lambda t: mul(x, add(G[0](self.D[1](z, mul(t, x))), self.nug))))
    def dT(self, z, x): return self.S(lambda t: add(G[0](self.D[1](z, mul(t, x))), self.nug, mul(x, t, G[1](self.D[1](z, mul(t, x))), self.D[2](z, mul(t, x)))))
    def cT(self, z, x, i): return add(self.DC[0](z, R(0), i), self.S(lambda t: mul(x, G[1](self.D[1](z, mul(t, x))), self.DC[1](z, mul(t, x), i))))
    def iT(self, z, x, i): return ite(eq(i, sub(self.d, I(1))), self.dT(z, x), add(app('IG', 'R', z, R(0), i), self.S(lambda t: mul(x, G[1](self.D[1](z, mul(t, x))), app('MG', 'R', z, mul(t, x), i)))))
    def cdT(self, z, x, i):
        def f(t):
            y = mul(t, x); a = self.D[1](z, y)
            return add(mul(G[1](a), self.DC[1](z, y, i)), mul(x, t, add(mul(G[2](a), self.D[2](z, y), self.DC[1](z, y, i)), mul(G[1](a), self.DC[2](z, y, i)))))
        return self.S(f)
    def slope(self, z, x): return add(G[0](self.D[1](z, x)), self.nug)
def jj(u, g): j = u.int('j'); u.assume(lt(j, g.np)); return j
VALUE = 'value = f(x_<d, 0) + quadrature of x_d (g(slope of f at t x_d) + nugget)'
@unit(P, name='Evaluate', targets=(N + 'EvaluateImpl', N + 'EvaluateSingle', 'mpart::MonotoneIntegrand::operator()'))
def _(u):
    g = Exp(u, 'EvaluateImpl', 3); out = u.view('out', g.np); j = jj(u, g)
    r = u.call(g.f, g.this, [g.pts, g.c, out]); u.nothrow(r); u.post(VALUE, eq(u.at(out, j), g.T(g.z(j), g.x(j))))
@unit(P, name='ContinuousDerivative', targets=N + 'ContinuousDerivative')
def _(u):
    g = Exp(u, 'ContinuousDerivative', 3); out = u.view('out', g.np); j = jj(u, g)
    r = u.call(g.f, g.this, [g.pts, g.c, out]); u.nothrow(r); u.post('derivative = g(slope) + nugget', eq(u.at(out, j), g.slope(g.z(j), g.x(j))))
@unit(P, name='DiscreteDerivative', targets=N + 'DiscreteDerivative')
def _(u):
    g = Exp(u, 'DiscreteDerivative', 4); ev, out = u.view('evals', g.np), u.view('out', g.np); j = jj(u, g)
    r = u.call(g.f, g.this, [g.pts, g.c, ev, out]); u.nothrow(r); u.post(VALUE, eq(u.at(ev, j), g.T(g.z(j), g.x(j)))); u.post('derivative of the quadrature value in the last input', eq(u.at(out, j), g.dT(g.z(j), g.x(j))))
@unit(P, name='CoeffJacobian', targets=N + 'CoeffJacobian')
def _(u):
    g = Exp(u, 'CoeffJacobian', 4); ev, out = u.view('evals', g.np), u.view('out', g.N, g.np); j = jj(u, g); i = u.int('i')
    r = u.call(g.f, g.this, [g.pts, g.c, ev, out]); u.nothrow(r); u.post(VALUE, eq(u.at(ev, j), g.T(g.z(j), g.x(j)))); u.post('derivative of the value in coefficient i', eq(u.at(out, i, j), g.cT(g.z(j), g.x(j), i)), hyps=[lt(i, g.N)])
@unit(P, name='InputJacobian', targets=N + 'InputJacobian')
def _(u):
    g = Exp(u, 'InputJacobian', 4); ev, out = u.view('evals', g.np), u.view('out', g.d, g.np); j = jj(u, g); i = u.int('i')
    r = u.call(g.f, g.this, [g.pts, g.c, ev, out]); u.nothrow(r); u.post(VALUE, eq(u.at(ev, j), g.T(g.z(j), g.x(j)))); u.post('derivative of the value in input i', eq(u.at(out, i, j), g.iT(g.z(j), g.x(j), i)), hyps=[lt(i, g.d)])
@unit(P, name='ContinuousMixedJacobian', targets=N + 'ContinuousMixedJacobian')
def _(u):
    g = Exp(u, 'ContinuousMixedJacobian', 3); out = u.view('out', g.N, g.np); j = jj(u, g); i = u.int('i')
    r = u.call(g.f, g.this, [g.pts, g.c, out]); u.nothrow(r); z, x = g.z(j), g.x(j); u.post('derivative of the slope in coefficient i', eq(u.at(out, i, j), mul(G[1](g.D[1](z, x)), g.DC[1](z, x, i))), hyps=[lt(i, g.N)])
@unit(P, name='ContinuousMixedInputJacobian', targets=N + 'ContinuousMixedInputJacobian')
def _(u):
    g = Exp(u, 'ContinuousMixedInputJacobian', 3); out = u.view('out', g.d, g.np); j = jj(u, g); i = u.int('i')
    r = u.call(g.f, g.this, [g.pts, g.c, out]); u.nothrow(r); z, x = g.z(j), g.x(j); u.post('derivative of the slope in input i', eq(u.at(out, i, j), mul(G[1](g.D[1](z, x)), g.MG(z, x, i))), hyps=[lt(i, g.d)])
@unit(P, name='DiscreteMixedJacobian', targets=N + 'DiscreteMixedJacobian')
def _(u):
    g = Exp(u, 'DiscreteMixedJacobian', 3); out = u.view('out', g.N, g.np); j = jj(u, g); i = u.int('i')
    r = u.call(g.f, g.this, [g.pts, g.c, out]); u.nothrow(r); u.post('derivative of the quadrature slope in coefficient i', eq(u.at(out, i, j), g.cdT(g.z(j), g.x(j), i)), hyps=[lt(i, g.N)])
two = lambda f: 'body' in f
@unit(P, name='EvaluateImpl (map interface)', targets=N + 'EvaluateImpl')
def _(u):
    g = Exp(u, 'EvaluateImpl', 2); out = u.view('out', I(1), g.np); j = jj(u, g)
    r = u.call(g.f, g.this, [g.pts, out]); u.nothrow(r); u.post(VALUE, eq(u.at(out, I(0), j), g.T(g.z(j), g.x(j))))
@unit(P, name='GradientImpl', targets=(N + 'GradientImpl', N + 'InputJacobian'))
def _(u):
    g = Exp(u, 'GradientImpl', 3); out = u.view('out', g.d, g.np); s = u.view('sens', I(1), g.np); j = jj(u, g); i = u.int('i')
    r = u.call(g.f, g.this, [g.pts, s, out]); u.nothrow(r); u.post('sensitivity times the derivative of the value in input i', eq(u.at(out, i, j), mul(u.at(s, I(0), j), g.iT(g.z(j), g.x(j), i))), hyps=[lt(i, g.d)])
@unit(P, name='CoeffGradImpl', targets=(N + 'CoeffGradImpl', N + 'CoeffJacobian'))
def _(u):
    g = Exp(u, 'CoeffGradImpl', 3); out = u.view('out', g.N, g.np); s = u.view('sens', I(1), g.np); j = jj(u, g); i = u.int('i')
    r = u.call(g.f, g.this, [g.pts, s, out]); u.nothrow(r); u.post('sensitivity times the derivative of the value in coefficient i', eq(u.at(out, i, j), mul(u.at(s, I(0), j), g.cT(g.z(j), g.x(j), i))), hyps=[lt(i, g.N)])
for cont in (True, False):
    nm = 'continuous' if cont else 'discrete'
    slope = lambda g, z, x, cont=cont: g.slope(z, x) if cont else g.dT(z, x)
    @unit(P, name='LogDeterminantImpl (%s)' % nm, targets=N + 'LogDeterminantImpl')
    def _(u, cont=cont, slope=slope):
        g = Exp(u, 'LogDeterminantImpl', 2); out = u.view('out', g.np); j = jj(u, g); u.setf(g.this, useContDeriv_=TRUE if cont else FALSE)
        r = u.call(g.f, g.this, [g.pts, out]); u.nothrow(r); s = slope(g, g.z(j), g.x(j))
        u.post('logarithm of the derivative in the last input, where that is positive', eq(u.at(out, j), log_(s)), hyps=[gt(s, R(0))])
    @unit(P, name='LogDeterminantCoeffGradImpl (%s)' % nm, targets=N + 'LogDeterminantCoeffGradImpl')
    def _(u, cont=cont, slope=slope):
        g = Exp(u, 'LogDeterminantCoeffGradImpl', 2); out = u.view('out', g.N, g.np); j = jj(u, g); i = u.int('i'); u.setf(g.this, useContDeriv_=TRUE if cont else FALSE)
        if not cont:
            # through the contracts established by the units DiscreteDerivative and DiscreteMixedJacobian
            s, ds = (lambda j: app('dT', 'R', j)), (lambda i, j: app('cdT', 'R', i, j))
            def same(ex, st, c, *outs):
                p, co = view_arg(ex, st, c, 0), view_arg(ex, st, c, 1); a, b, q = fresh('a', 'I'), fresh('b', 'I'), fresh('q', 'I'); at = lambda v, *i: u.at(v, *i, st=st)
                ex.oblige('precondition', st, and_(eq(p.ext[0], g.d), eq(p.ext[1], g.np), imp(and_(ge(a, I(0)), lt(a, g.d), ge(b, I(0)), lt(b, g.np)), eq(at(p, a, b), at(g.pts, a, b)))), c.loc, 'at the given points')
                ex.oblige('precondition', st, and_(eq(co.ext[0], g.N), imp(and_(ge(q, I(0)), lt(q, g.N)), eq(at(co, q), lapp(g.C0, q)))), c.loc, 'with the coefficients of the component')
                for v, e in outs: ex.oblige('precondition', st, and_(*[eq(x, y) for x, y in zip(v.ext, e)]), c.loc, 'room for the results')
            def deriv(ex, st, c):
                ev, o = view_arg(ex, st, c, 2), view_arg(ex, st, c, 3); same(ex, st, c, (ev, (g.np,)), (o, (g.np,)))
                fill(ex, st, ev, lambda j, old: app('T', 'R', j)); fill(ex, st, o, lambda j, old: s(j))
            def mixed(ex, st, c):
                o = view_arg(ex, st, c, 2); same(ex, st, c, (o, (g.N, g.np))); fill(ex, st, o, lambda i, j, old: ds(i, j))
            u.contract(N + 'DiscreteDerivative', deriv); u.contract(N + 'DiscreteMixedJacobian', mixed)
            r = u.call(g.f, g.this, [g.pts, out]); u.nothrow(r)
            u.post('derivative of the log-determinant in coefficient i', eq(u.at(out, i, j), div(ds(i, j), s(j))), hyps=[lt(i, g.N), gt(s(j), R(0))]); return
        r = u.call(g.f, g.this, [g.pts, out]); u.nothrow(r); z, x = g.z(j), g.x(j); s = slope(g, z, x)
        u.post('derivative of the log-determinant in coefficient i', eq(u.at(out, i, j), div(mul(G[1](g.D[1](z, x)), g.DC[1](z, x, i)) if cont else g.cdT(z, x, i), s)), hyps=[lt(i, g.N), gt(s, R(0))])
    @unit(P, name='LogDeterminantInputGradImpl (%s)' % nm, targets=N + 'LogDeterminantInputGradImpl')
    def _(u, cont=cont, slope=slope):
        g = Exp(u, 'LogDeterminantInputGradImpl', 2); out = u.view('out', g.d, g.np); j = jj(u, g); i = u.int('i'); u.setf(g.this, useContDeriv_=TRUE if cont else FALSE)
        r = u.call(g.f, g.this, [g.pts, out])
        if not cont: u.throws_iff(r, TRUE, 'the discrete form is reported as not available'); return
        u.nothrow(r); z, x = g.z(j), g.x(j); s = slope(g, z, x)
        u.post('derivative of the log-determinant in input i', eq(u.at(out, i, j), div(mul(G[1](g.D[1](z, x)), g.MG(z, x, i)), s)), hyps=[lt(i, g.d), gt(s, R(0))])
for nx in ('one point per target', 'a single point', 'map interface'):
    @unit(P, name='Inverse (%s)' % nx, targets=(N + 'InverseImpl', N + 'SingleEvaluator::operator()', N + 'EvaluateSingle'))
    def _(u, nx=nx):
        g = Exp(u, 'InverseImpl', 3 if nx[0] == 'm' else 5); out, ys = u.view('out', g.np), u.view('ys', g.np); j = jj(u, g)
        rows = u.int('rows'); u.assume(ge(rows, sub(g.d, I(1))))       # the last coordinate, when given, is only a starting guess
        g.pts = u.view('pts', rows, I(1) if nx[0] == 'a' else g.np)
        def root(ex, st, c):
            yd = ex.val(st, c.args[0]); F = c.args[1]; x = fresh('x', 'R')
            v = ex.callval(ex.load(st, F) if isinstance(F, Ref) else F, [x], st, c.fr)
            if isinstance(v, Ref): v = ex.load(st, v)
            ex.oblige('precondition', st, and_(ge(ex.val(st, c.args[3]), R(0)), ge(ex.val(st, c.args[4]), R(0))), c.loc, 'tolerances are not negative')
            return app('root', 'R', lam(x, v), yd, ex.val(st, c.args[3]), ex.val(st, c.args[4]))
        u.contract('mpart::RootFinding::InverseSingleBracket', root)
        tol = [R(Fraction('1e-6')), R(Fraction('1e-6'))]; k = I(0) if nx[0] == 'a' else j
        if nx[0] == 'm':
            ys, out = u.view('ys', I(1), g.np), u.view('out', I(1), g.np)
            r = u.call(g.f, g.this, [g.pts, ys, out]); u.nothrow(r); got, y = u.at(out, I(0), j), u.at(ys, I(0), j)
        else:
            o = u.ref(u.ex.mksym(u.st, next(i for i, t in enumerate(u.prog.types) if t.get('tn') == 'std::map'), 'opts'))
            r = u.call(g.f, g.this, [g.pts, ys, g.c, out, o]); got, y = u.at(out, j), u.at(ys, j)
            from libmodel import LITS
            oid = u.load(o).f['id']; has = lambda n: and_(not_(eq(oid, I(0))), app('haskey', 'B', oid, I(LITS[n]))); get = lambda n: app('mapval', 'I', oid, I(LITS[n]))
            tol = [ite(has(n), app('stod', 'R', get(n)), R(Fraction('1e-6'))) for n in ('xtol', 'ytol')]; eps = R(Fraction('2.220446049250313e-16'))
            u.throws_iff(r, or_(and_(has('Method'), not_(eq(get('Method'), I(LITS['Bracket'])))), lt(tol[0], R(0)), lt(tol[1], R(0)), and_(le(tol[0], eps), le(tol[1], eps))), 'an unknown method, negative tolerances and tolerances that are both zero are rejected')
        x = fresh('x', 'R')
        u.post('root of the same function that evaluation computes, at the target', eq(got, app('root', 'R', lam(x, g.T(g.z(k), x)), y, *tol)))
