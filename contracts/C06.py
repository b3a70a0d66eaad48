"""C06: one-dimensional bases: values, derivatives and second derivatives of every order agree with their definition."""
from unit import *
P = 'C06'
TU = 'bases'
OP = 'mpart::OrthogonalPolynomial::'

class Fam:
    def __init__(self, key, mixer, a, c, p1, d1, norm):
        self.key = key; self.mixer = mixer; self.a = a; self.c = c; self.p1 = p1; self.d1 = d1; self.norm = norm

def fact(n):
    i = fresh('i', 'I')
    return prod_(i, I(0), sub(n, I(1)), toreal(add(i, I(2))))
PI = R(Fraction(repr(3.14159265358979323846)))
sq = lambda t: app('sqrt', 'R', t)
# the three-term recurrences that define the families:  P(n) = a x P(n-1) - c(n) P(n-2)
FAMS = [Fam('probabilist', 'ProbabilistHermiteMixer', R(1), lambda n: sub(toreal(n), R(1)), lambda x: x, R(1),
            lambda n: sq(mul(sq(mul(R(2), PI)), fact(n)))),
        Fam('physicist', 'PhysicistHermiteMixer', R(2), lambda n: mul(R(2), sub(toreal(n), R(1))), lambda x: mul(R(2), x), R(2),
            lambda n: sq(mul(sq(PI), app('pow', 'R', R(2), toreal(n)), fact(n))))]

def fam(u, F, meth, nargs):
    f = u.fn(OP + meth, pred=lambda f: F.mixer in u.cls(f), nargs=nargs)
    this = u.obj(f)
    x = u.real('x')
    Pn = lambda n: app('P', 'R', n)
    rec = lambda n: [eq(Pn(I(0)), R(1)), eq(Pn(I(1)), F.p1(x)),
                     imp(ge(n, I(2)), eq(Pn(n), sub(mul(F.a, x, Pn(sub(n, I(1)))), mul(F.c(n), Pn(sub(n, I(2)))))))]
    D = lambda n: mul(F.a, toreal(n), Pn(sub(n, I(1))))                                              # P_n' = a n P_{n-1}
    D2 = lambda n: mul(F.a, F.a, toreal(n), sub(toreal(n), R(1)), Pn(sub(n, I(2))))                  # P_n'' = a^2 n (n-1) P_{n-2}
    u.hint('P', Pn, rec); u.hint('D', D, rec); u.hint('D2', D2, rec)
    nz = u.load(this).f['normalize_']
    N = lambda n, v: ite(nz, div(v, F.norm(n)), v)
    return f, this, x, Pn, rec, D, D2, N

def mk(F):
    @unit(P, name='%s_EvaluateAll' % F.key, targets=OP + 'EvaluateAll')
    def _(u):
        f, this, x, Pn, rec, D, D2, N = fam(u, F, 'EvaluateAll', 3)
        m = u.int('m'); o = u.array('out', ext=add(m, I(1))); n = u.int('n')
        r = u.call(f, this, [o, m, x]); u.nothrow(r)
        u.post('values of all orders', eq(u.at(o, n), N(n, Pn(n))), hyps=[le(n, m)] + rec(n))
    @unit(P, name='%s_EvaluateDerivatives' % F.key, targets=OP + 'EvaluateDerivatives')
    def _(u):
        f, this, x, Pn, rec, D, D2, N = fam(u, F, 'EvaluateDerivatives', 4)
        m = u.int('m'); o = u.array('out', ext=add(m, I(1))); d = u.array('der', ext=add(m, I(1))); n = u.int('n')
        r = u.call(f, this, [o, d, m, x]); u.nothrow(r)
        u.post('values of all orders', eq(u.at(o, n), N(n, Pn(n))), hyps=[le(n, m)] + rec(n))
        u.post('derivatives of all orders', eq(u.at(d, n), N(n, D(n))), hyps=[le(n, m)] + rec(n))
    @unit(P, name='%s_EvaluateDerivatives_only' % F.key, targets=OP + 'EvaluateDerivatives')
    def _(u):
        f, this, x, Pn, rec, D, D2, N = fam(u, F, 'EvaluateDerivatives', 3)
        m = u.int('m'); d = u.array('der', ext=add(m, I(1))); n = u.int('n')
        r = u.call(f, this, [d, m, x]); u.nothrow(r)
        u.post('derivatives of all orders', eq(u.at(d, n), N(n, D(n))), hyps=[le(n, m)] + rec(n))
    @unit(P, name='%s_EvaluateSecondDerivatives' % F.key, targets=OP + 'EvaluateSecondDerivatives')
    def _(u):
        f, this, x, Pn, rec, D, D2, N = fam(u, F, 'EvaluateSecondDerivatives', 5)
        m = u.int('m'); o = u.array('out', ext=add(m, I(1))); d = u.array('der', ext=add(m, I(1))); d2 = u.array('der2', ext=add(m, I(1))); n = u.int('n')
        r = u.call(f, this, [o, d, d2, m, x]); u.nothrow(r)
        u.post('values of all orders', eq(u.at(o, n), N(n, Pn(n))), hyps=[le(n, m)] + rec(n))
        u.post('derivatives of all orders', eq(u.at(d, n), N(n, D(n))), hyps=[le(n, m)] + rec(n))
        u.post('second derivatives of all orders', eq(u.at(d2, n), N(n, D2(n))), hyps=[le(n, m)] + rec(n))
    @unit(P, name='%s_Derivative' % F.key, targets=OP + 'Derivative')
    def _(u):
        f, this, x, Pn, rec, D, D2, N = fam(u, F, 'Derivative', 2)
        n = u.int('n')
        r = u.call(f, this, [n, x]); u.nothrow(r)
        u.post('derivative', eq(r.ret, N(n, D(n))), hyps=rec(n))
    @unit(P, name='%s_SecondDerivative' % F.key, targets=OP + 'SecondDerivative')
    def _(u):
        f, this, x, Pn, rec, D, D2, N = fam(u, F, 'SecondDerivative', 2)
        n = u.int('n')
        r = u.call(f, this, [n, x]); u.nothrow(r)
        u.post('second derivative', eq(r.ret, N(n, D2(n))), hyps=rec(n))
    @unit(P, name='%s_Evaluate' % F.key, targets=OP + 'Evaluate')
    def _(u):
        f, this, x, Pn, rec, D, D2, N = fam(u, F, 'Evaluate', 2)
        n = u.int('n')
        def inv(ex, base, s0, k, un):
            ls = [L for L in un if not L.ss and L.rs == 'R']
            m = sub(n, k); out = []
            for a in ls:
                for b in ls:
                    if a is b: continue
                    out.append(imp(ge(m, I(1)), eq(Pn(n), sub(mul(a.hav, Pn(m)), mul(F.c(add(m, I(1))), b.hav, Pn(sub(m, I(1))))))))
                    out.append(imp(ge(k, I(1)), eq(Pn(n), sub(mul(a.hav, Pn(add(m, I(1)))), mul(F.c(add(m, I(2))), b.hav, Pn(m))))))
            ex.hyps += [h for d in (-1, 0, 1, 2) for h in rec(add(m, I(d)))]
            return out
        u.ex.invs.append(inv)
        r = u.call(f, this, [n, x]); u.nothrow(r)
        u.post('value', eq(r.ret, N(n, Pn(n))), hyps=rec(n))
for F in FAMS: mk(F)

# ---------------------------------------------------------------- Hermite functions (over the contract of the physicist polynomials)
HF = 'mpart::HermiteFunction::'
half = lambda t: mul(num(Fraction(1, 2), 'R'), t)
sq2 = lambda n: sq(half(toreal(n)))
class HFS: pass
def hf(u, meth, nargs, explicit):
    s = HFS()
    f = u.fn(HF + meth, nargs=nargs)
    s.f = f; s.this = u.obj(f); x = s.x = u.real('x')
    Pn = s.P = lambda n: app('P', 'R', n)
    s.rec = lambda n: [eq(Pn(I(0)), R(1)), eq(Pn(I(1)), mul(R(2), x)), imp(ge(n, I(2)), eq(Pn(n), sub(mul(R(2), x, Pn(sub(n, I(1)))), mul(R(2), sub(toreal(n), R(1)), Pn(sub(n, I(2)))))))]
    def B(n, y, k):
        if y is not x: raise Unsupported('basis evaluated at another point')
        return [Pn(n), mul(R(2), toreal(n), Pn(sub(n, I(1)))), mul(R(4), toreal(n), sub(toreal(n), R(1)), Pn(sub(n, I(2))))][k]
    import spec_common
    spec_common.basis_contract(u, 'mpart::OrthogonalPolynomial', B)
    s.E = exp_(half(neg(mul(x, x))))
    if explicit:
        s.pw = lambda n: app('pow2', 'R', n); s.fc = lambda n: app('fact', 'R', n)
        # pow(2,n) and n! by their recurrences; square roots of the scaling through S
    S = s.S = lambda n: app('S', 'R', n)
    s.srec = lambda n: [imp(ge(n, I(1)), eq(S(sub(n, I(1))), mul(R(2), sq2(n), S(n)))), imp(ge(n, I(1)), eq(mul(sq2(n), sq2(n)), half(toreal(n)))),
                        eq(S(I(0)), inv(sq(sq(PI)))), imp(ge(n, I(1)), eq(mul(sq2(n), inv(sq2(n))), R(1)))]
    i = lambda n: sub(n, I(2))
    s.v = lambda n: ite(eq(n, I(0)), R(1), ite(eq(n, I(1)), x, mul(S(i(n)), s.E, Pn(i(n)))))
    s.d = lambda n: ite(eq(n, I(0)), R(0), ite(eq(n, I(1)), R(1), mul(S(i(n)), s.E, sub(B(i(n), x, 1), mul(x, Pn(i(n)))))))
    s.d2 = lambda n: ite(lt(n, I(2)), R(0), mul(S(i(n)), s.E, add(B(i(n), x, 2), mul(R(-2), x, B(i(n), x, 1)), mul(sub(mul(x, x), R(1)), Pn(i(n))))))
    return s
@unit(P, name='HermiteFunction_definition', targets=HF + 'Evaluate')
def _(u):
    """the stated derivatives are the derivatives of the stated value (calculus on exp(-x^2/2) times a differentiable function)"""
    s = hf(u, 'Evaluate', 2, False)
    y = sym('y', 'R'); n = u.int('n')
    import calc
    calc.PARTIAL['Hf'] = lambda n, k, t: [None, None, app('Hf', 'R', n, add(k, I(1)), t)]
    H = lambda k: app('Hf', 'R', n, I(k), y)
    g = mul(app('S', 'R', n), exp_(half(neg(mul(y, y)))), H(0))
    E = exp_(half(neg(mul(y, y))))
    ee = [eq(mul(exp_(half(mul(y, y))), E), R(1))]
    u.post('first derivative', eq(diff(g, y), mul(app('S', 'R', n), E, sub(H(1), mul(y, H(0))))), hyps=ee)
    u.post('second derivative', eq(diff(diff(g, y), y), mul(app('S', 'R', n), E, add(H(2), mul(R(-2), y, H(1)), mul(sub(mul(y, y), R(1)), H(0))))), hyps=ee)
@unit(P, name='HermiteFunction_EvaluateAll', targets=HF + 'EvaluateAll')
def _(u):
    s = hf(u, 'EvaluateAll', 3, False)
    m = u.int('m'); n = u.int('n'); o = u.array('out', ext=add(m, I(1)))
    u.assume(eq(mul(sq(R(2)), sq2(I(1))), R(1)))
    facts = lambda n: s.rec(n) + s.srec(n) + s.srec(I(1))
    u.hint('psi', lambda n: mul(s.S(n), s.E, s.P(n)), facts)
    r = u.call(s.f, s.this, [o, m, s.x]); u.nothrow(r)
    u.post('values of all orders', eq(u.at(o, n), s.v(n)), hyps=[le(n, m)] + facts(sub(n, I(2))))
POW2 = lambda n: app('pow', 'R', R(2), toreal(n))
Sx = lambda n: inv(sq(mul(POW2(n), fact(n), sq(PI))))           # the normalising constant of Hermite function n
@unit(P, name='HermiteFunction_scaling', targets=HF + 'EvaluateAll')
def _(u):
    """the constants (2^n n! sqrt(pi))^(-1/2) satisfy the recurrence used by EvaluateAll"""
    n = u.int('n', 1); q = sq2(n)
    A = lambda n: mul(POW2(n), fact(n), sq(PI))
    h = [eq(POW2(n), mul(R(2), POW2(sub(n, I(1))))), gt(POW2(sub(n, I(1))), R(0)), gt(fact(sub(n, I(1))), R(0)), gt(sq(PI), R(0))]
    u.lemma('n! = n (n-1)!', eq(fact(n), mul(toreal(n), fact(sub(n, I(1))))))
    u.posts += 1
    u.post('A(n) = 2 n A(n-1)', eq(A(n), mul(R(2), toreal(n), A(sub(n, I(1))))), hyps=h)
    a, b, s, t, w = [sym(z, 'R') for z in 'abstw']
    # in terms of a = sqrt A(n), b = sqrt A(n-1), q = sqrt(n/2)
    u.post('sqrt A(n) = 2 sqrt(n/2) sqrt A(n-1)', eq(a, mul(R(2), w, b)), hyps=[ge(a, R(0)), ge(b, R(0)), ge(w, R(0)), eq(mul(a, a), mul(R(4), w, w, b, b))])
def hfS(u, meth, nargs):
    s = hf(u, meth, nargs, False)
    s.S = Sx
    i = lambda n: sub(n, I(2))
    B1 = lambda n: mul(R(2), toreal(n), s.P(sub(n, I(1)))); B2 = lambda n: mul(R(4), toreal(n), sub(toreal(n), R(1)), s.P(sub(n, I(2))))
    s.v = lambda n: ite(eq(n, I(0)), R(1), ite(eq(n, I(1)), s.x, mul(Sx(i(n)), s.E, s.P(i(n)))))
    s.d = lambda n: ite(eq(n, I(0)), R(0), ite(eq(n, I(1)), R(1), mul(Sx(i(n)), s.E, sub(B1(i(n)), mul(s.x, s.P(i(n)))))))
    s.d2 = lambda n: ite(lt(n, I(2)), R(0), mul(Sx(i(n)), s.E, add(B2(i(n)), mul(R(-2), s.x, B1(i(n))), mul(sub(mul(s.x, s.x), R(1)), s.P(i(n))))))
    return s
for _k, _m in enumerate(('Evaluate', 'Derivative', 'SecondDerivative')):
    @unit(P, name='HermiteFunction_' + _m, targets=HF + _m)
    def _(u, k=_k, m=_m):
        s = hfS(u, m, 2); n = u.int('n')
        r = u.call(s.f, s.this, [n, s.x]); u.nothrow(r)
        u.post(('value', 'derivative', 'second derivative')[k], eq(r.ret, (s.v, s.d, s.d2)[k](n)), hyps=s.rec(sub(n, I(2))) + s.rec(sub(n, I(1))))
for _k, _m in enumerate(('EvaluateDerivatives', 'EvaluateSecondDerivatives')):
    @unit(P, name='HermiteFunction_' + _m, targets=HF + _m)
    def _(u, k=_k, m=_m):
        s = hfS(u, m, 4 + k)
        mx = u.int('m'); n = u.int('n'); arrs = [u.array(('val', 'der', 'der2')[i], ext=add(mx, I(1))) for i in range(2 + k)]
        r = u.call(s.f, s.this, arrs + [mx, s.x]); u.nothrow(r)
        j = fresh('j', 'I'); q = sub(n, I(2))
        f1 = lambda n: prod_(j, I(0), n, add(toreal(j), R(1)))
        u.induct('n! by either product', None, lambda n: eq(f1(n), fact(n)))
        code = lambda n: mul(inv(sq(sq(PI))), inv(sq(mul(POW2(n), f1(n)))))
        ax = [eq(mul(inv(sq(sq(PI))), inv(sq(mul(POW2(q), fact(q))))), Sx(q)), eq(POW2(I(0)), R(1)), imp(eq(q, I(0)), eq(inv(sq(sq(PI))), Sx(q)))]     # sqrt(ab) = sqrt a sqrt b
        f2 = mul(toreal(q), f1(sub(q, I(1))))      # the same product, last factor apart
        u.lemma('n! by the last factor', eq(f2, fact(q)), hyps=[ge(q, I(1)), eq(f1(q), fact(q))])
        u.lemma('scaling by the last factor', eq(inv(sq(mul(POW2(q), f2))), inv(sq(mul(POW2(q), fact(q))))), hyps=[ge(q, I(1)), eq(f2, fact(q))])
        ax.append(imp(ge(q, I(1)), eq(mul(inv(sq(sq(PI))), inv(sq(mul(POW2(q), f2)))), Sx(q))))
        h = [le(n, mx), eq(f1(q), fact(q))] + ax + s.rec(q) + s.rec(add(q, I(1)))
        for z in range(2 + k):
            u.post(('values', 'derivatives', 'second derivatives')[z] + ' of all orders', eq(u.at(arrs[z], n), (s.v, s.d, s.d2)[z](n)), hyps=h)
