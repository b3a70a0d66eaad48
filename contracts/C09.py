"""C09: positive bijectors and sigmoids: the code equals one closed formula on every branch, and that formula is positive, increasing and differentiated."""
from unit import *
P = 'C09'; TU = 'C09'
ASSUME = ['facts of exp/log/tanh used as axioms: exp>0 and increasing, exp(a+b)=exp(a)exp(b), log increasing and inverse to exp, log(ab)=log a+log b, tanh(t)=(exp(2t)-1)/(exp(2t)+1), and the rules of differentiation of exp, log, 1/x']
N = 'mpart::'
one = R(1)
def ev(u, q, x):
    f = u.fn(N + q, nargs=1)
    r = u.call(f, None, [x]); u.nothrow(r)
    return r.ret
FORM = {'SoftPlus': lambda x: log_(add(one, exp_(x))), 'Exp': lambda x: exp_(x), 'Logistic': lambda x: div(exp_(x), add(one, exp_(x)))}
FINV = {'SoftPlus': lambda y: log_(sub(exp_(y), one)), 'Exp': lambda y: log_(y), 'Logistic': lambda y: log_(div(y, sub(one, y)))}
def facts(x):
    ex = exp_(x); a = add(one, inv(ex))
    out = [log_mul(a, ex), log_exp(x), tanh_def(mul(num(Fraction(1, 2), 'R'), x)), eq(mul(ex, inv(ex)), one), gt(ex, R(0))]
    return out
def mk(b):
    g = FORM[b]
    @unit(P, name=b + '_Evaluate', targets=N + b + '::Evaluate')
    def _(u):
        x = u.real('x')
        r = ev(u, b + '::Evaluate', x)
        u.post('value is the defining formula on every branch', eq(r, g(x)), hyps=facts(x))
        if b == 'Logistic':
            u.post('values in (0,1)', and_(gt(r, R(0)), lt(r, one)), hyps=facts(x))
        else: u.post('positive', gt(r, R(0)), hyps=facts(x) + [eq(r, g(x))])
        y = u.real('y')
        u.post('strictly increasing', lt(g(x), g(y)), hyps=[lt(x, y)] + facts(x) + facts(y))
    @unit(P, name=b + '_Derivative', targets=N + b + '::Derivative')
    def _(u):
        x = u.real('x')
        r = ev(u, b + '::Derivative', x)
        u.post('derivative of the defining formula', eq(r, diff(g(x), x)), hyps=facts(x))
        u.post('positive', gt(r, R(0)), hyps=facts(x) + [eq(r, diff(g(x), x))])
    if b != 'Logistic':
        @unit(P, name=b + '_SecondDerivative', targets=N + b + '::SecondDerivative')
        def _(u):
            x = u.real('x')
            r = ev(u, b + '::SecondDerivative', x)
            u.post('second derivative of the defining formula', eq(r, diff(diff(g(x), x), x)), hyps=facts(x))
    @unit(P, name=b + '_Inverse', targets=N + b + '::Inverse')
    def _(u):
        y = u.real('y')
        dom = [gt(y, R(0))] if b != 'Logistic' else [gt(y, R(0)), lt(y, one)]
        r = ev(u, b + '::Inverse', y)
        t = sub(exp_(y), one) if b == 'SoftPlus' else (y if b == 'Exp' else div(y, sub(one, y)))
        fs = dom + [log_exp(y), exp_log(t), log_mono(t, exp_(y))] + ([gt(exp_(y), one)] if b == 'SoftPlus' else [])
        u.post('inverse formula', eq(r, FINV[b](y)), hyps=fs)
        u.post('inverts the bijector', eq(g(FINV[b](y)), y), hyps=fs + [gt(t, R(0)), eq(mul(sub(one, y), inv(sub(one, y))), one)])
for b in FORM: mk(b)

SG = N + 'Sigmoid1d::'
def sig(u, meth, nargs):
    f = u.fn(SG + meth, nargs=nargs)
    this = u.obj(f)
    d = u.load(this).f
    n = d['numCoeffs']; u.assume(ge(n, I(0)))
    np_ = u.int('np')
    c = u.view('centers', n); w = u.view('widths', n); co = u.view('coeffs', n)
    u.setf(this, centers_=c, widths_=w, savedCoeffs=co)
    t = lambda i, x: mul(u.at(w, i), sub(x, u.at(c, i)))
    L = lambda x: app('logistic', 'R', x); D = lambda x: app('dlogistic', 'R', x)
    u.contract(N + 'Logistic::Evaluate', lambda ex, st, cc: L(ex.val(st, cc.args[0])))
    u.contract(N + 'Logistic::Derivative', lambda ex, st, cc: D(ex.val(st, cc.args[0])))
    return f, this, n, np_, co, w, t, L, D
@unit(P, targets=SG + 'EvaluateImpl')
def Sigmoid1d_Evaluate(u):
    f, this, n, np_, co, w, t, L, D = sig(u, 'EvaluateImpl', 2)
    p = u.view('pts', I(1), np_); o = u.view('out', I(1), np_); s = u.int('s')
    r = u.call(f, this, [p, o]); u.nothrow(r)
    i = fresh('i', 'I')
    u.post('value is the weighted sum of sigmoids', eq(u.at(o, I(0), s), sum_(i, I(0), n, mul(u.at(co, i), L(t(i, u.at(p, I(0), s)))))), hyps=[lt(s, np_)])
@unit(P, targets=SG + 'GradientImpl')
def Sigmoid1d_Gradient(u):
    f, this, n, np_, co, w, t, L, D = sig(u, 'GradientImpl', 3)
    a = u.view('sens', I(1), np_); p = u.view('pts', I(1), np_); o = u.view('out', I(1), np_); s = u.int('s')
    r = u.call(f, this, [a, p, o]); u.nothrow(r)
    i = fresh('i', 'I')
    u.post('input derivative of the weighted sum times the sensitivity (sensitivities first)', eq(u.at(o, I(0), s), mul(u.at(a, I(0), s), sum_(i, I(0), n, mul(u.at(co, i), u.at(w, i), D(t(i, u.at(p, I(0), s))))))), hyps=[lt(s, np_)])
@unit(P, targets=SG + 'CoeffGradImpl')
def Sigmoid1d_CoeffGrad(u):
    f, this, n, np_, co, w, t, L, D = sig(u, 'CoeffGradImpl', 3)
    a = u.view('sens', I(1), np_); p = u.view('pts', I(1), np_); o = u.view('out', n, np_); s = u.int('s'); k = u.int('k')
    r = u.call(f, this, [a, p, o]); u.nothrow(r)
    u.post('coefficient derivative times the sensitivity (sensitivities first)', eq(u.at(o, k, s), mul(u.at(a, I(0), s), L(t(k, u.at(p, I(0), s))))), hyps=[lt(s, np_), lt(k, n)])
