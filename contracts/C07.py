"""C07: a linearised basis equals the wrapped basis inside its bounds and its tangent lines outside."""
from unit import *
from spec_common import *
P = 'C07'; TU = 'bases'
LB = 'mpart::LinearizedBasis::'

def setup(u, meth, nargs):
    f = u.fn(LB + meth, nargs=nargs, pred=lambda f: 'HermiteFunction' in u.cls(f))
    this = u.obj(f)
    d = u.load(this).f
    lo, hi = d['lb_'], d['ub_']
    u.assume(lt(lo, hi))
    B = lambda n, x, k: app('B%d' % k, 'R', n, x)
    basis_contract(u, 'mpart::HermiteFunction', B)
    x = u.real('x')
    a = lambda: ite(lt(x, lo), lo, hi)
    out = or_(lt(x, lo), gt(x, hi))
    val = lambda n: ite(out, add(B(n, a(), 0), mul(B(n, a(), 1), sub(x, a()))), B(n, x, 0))
    d1 = lambda n: ite(out, B(n, a(), 1), B(n, x, 1))
    d2 = lambda n: ite(out, R(0), B(n, x, 2))
    return f, this, x, val, d1, d2
W = ('values of all orders', 'derivatives of all orders', 'second derivatives of all orders')
def arr(meth, nout):
    @unit(P, name=meth, targets=LB + meth)
    def _(u):
        f, this, x, *F = setup(u, meth, nout + 2)
        m = u.int('m'); n = u.int('n')
        arrs = [u.array('o%d' % i, ext=add(m, I(1))) for i in range(nout)]
        r = u.call(f, this, arrs + [m, x]); u.nothrow(r)
        for i in range(nout): u.post(W[i], eq(u.at(arrs[i], n), F[i](n)), hyps=[le(n, m)])
arr('EvaluateAll', 1); arr('EvaluateDerivatives', 2); arr('EvaluateSecondDerivatives', 3)
def single(meth, k):
    @unit(P, name=meth, targets=LB + meth)
    def _(u):
        f, this, x, *F = setup(u, meth, 2)
        n = u.int('n')
        r = u.call(f, this, [n, x]); u.nothrow(r)
        u.post(('value', 'derivative', 'second derivative')[k], eq(r.ret, F[k](n)))
single('Evaluate', 0); single('Derivative', 1); single('SecondDerivative', 2)
@unit(P, name='smooth_at_bounds', targets=LB + 'Evaluate')
def _(u):
    # the specified function is continuously differentiable at the bounds (lemma over the specification)
    f, this, x, val, d1, d2 = setup(u, 'Evaluate', 2)
    lo = u.load(this).f['lb_']; hi = u.load(this).f['ub_']
    n = u.int('n')
    B = lambda n, x, k: app('B%d' % k, 'R', n, x)
    for nm, b in (('lower', lo), ('upper', hi)):
        tan = lambda y: add(B(n, b, 0), mul(B(n, b, 1), sub(y, b)))
        y = fresh('y', 'R')
        u.post('tangent line meets the basis at the %s bound' % nm, eq(tan(b), B(n, b, 0)))
        u.post('with equal slope at the %s bound' % nm, eq(diff(tan(y), y), B(n, b, 1)))
@unit(P, name='constructor_bounds', targets=LB + 'LinearizedBasis')
def _(u):
    # both constructors store the bounds they are given
    for na in (2, 3):
        f = u.fn(LB + 'LinearizedBasis', nargs=na, pred=lambda f: 'HermiteFunction' in u.cls(f))
        this = u.obj(f, name='c%d' % na)
        lo, hi = u.real('lo'), u.real('hi')
        u.assume(lt(lo, hi))
        pb = [u.load(this).f['polyBasis_']] if na == 3 else []
        u.call(f, this, pb + [lo, hi])
        d = u.load(this).f
        u.post('lower bound kept', eq(d['lb_'], lo)); u.post('upper bound kept', eq(d['ub_'], hi))
