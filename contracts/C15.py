"""C15: affine, identity and summarised maps compute their defining formula and overwrite every output entry."""
from unit import *
from spec_common import *
P = 'C15'; TU = 'C15'
N = 'mpart::'
ASSUME = ['Eigen: matrix product, partial-pivot LU factorisation, solve and determinant have their textbook meaning (contract of mpart::dgemm and mpart::PartialPivLU; the wrappers themselves are under contract in C20)']

def gemm_contract(u):
    def h(ex, st, c):
        al, A, B, be, C = [ex.val(st, a) for a in c.args]
        if isinstance(A, View): return PASS      # the forwarding overload is verified through its body
        tA, tB = A.f['isTransposed'], B.f['isTransposed']
        a = lambda i, k: ite(tA, u.at(A.f['view'], k, i, st=st), u.at(A.f['view'], i, k, st=st))
        b = lambda k, j: ite(tB, u.at(B.f['view'], j, k, st=st), u.at(B.f['view'], k, j, st=st))
        ea, eb, ec = A.f['view'].ext, B.f['view'].ext, C.ext
        ra, ca = ite(tA, ea[1], ea[0]), ite(tA, ea[0], ea[1]); rb, cb = ite(tB, eb[1], eb[0]), ite(tB, eb[0], eb[1])
        ex.oblige('precondition', st, and_(eq(ca, rb), eq(ec[0], ra), eq(ec[1], cb)), c.loc, 'dgemm: compatible shapes')
        k = fresh('k', 'I')
        fill(ex, st, C, lambda i, j, old: add(mul(be, old), mul(al, sum_(k, I(0), ca, mul(a(i, k), b(k, j))))))
        return None
    u.contract(N + 'dgemm', h)

def affine(u, cls, meth, nargs=None, lin=True, bias=True):
    f = u.fn(N + cls + '::' + meth, nargs=nargs)
    this = u.obj(f)
    n, m, np_ = u.int('n'), u.int('m'), u.int('np')
    if lin: u.assume(le(I(1), m)); u.assume(le(m, n)); A = u.view('A', m, n)
    else: u.assume(eq(n, m)); A = u.view('A', I(0), I(0))
    b = u.view('b', m if bias else I(0))
    if bias: u.assume(ge(m, I(1)))
    u.assume(le(n, I(2**30))); u.assume(le(np_, I(2**30)))
    kw = dict(inputDim=n, outputDim=m, numCoeffs=I(0), A_=A, b_=b)
    u.setf(this, **kw)
    gemm_contract(u)
    return f, this, n, m, np_, A, b
CASES = [('linear and offset', True, True), ('linear', True, False), ('offset', False, True)]
def mk(cls):
    for nm, lin, bias in CASES:
        @unit(P, name='%s_Evaluate (%s)' % (cls, nm), targets=N + cls + '::EvaluateImpl')
        def _(u, lin=lin, bias=bias):
            f, this, n, m, np_, A, b = affine(u, cls, 'EvaluateImpl', None, lin, bias)
            p, o = u.view('pts', n, np_), u.view('out', m, np_)
            i, j, k = u.int('i'), u.int('j'), fresh('k', 'I')
            r = u.call(f, this, [p, o]); u.nothrow(r)
            e = sum_(k, I(0), n, mul(u.at(A, i, k), u.at(p, k, j))) if lin else u.at(p, i, j)
            if bias: e = add(e, u.at(b, i))
            u.post('output = A x + b', eq(u.at(o, i, j), e), hyps=[lt(i, m), lt(j, np_)])
        @unit(P, name='%s_Gradient (%s)' % (cls, nm), targets=N + cls + '::GradientImpl')
        def _(u, lin=lin, bias=bias):
            f, this, n, m, np_, A, b = affine(u, cls, 'GradientImpl', None, lin, bias)
            p, s, o = u.view('pts', n, np_), u.view('sens', m, np_), u.view('out', n, np_)
            i, j, k = u.int('i'), u.int('j'), fresh('k', 'I')
            r = u.call(f, this, [p, s, o]); u.nothrow(r)
            e = sum_(k, I(0), m, mul(u.at(A, k, i), u.at(s, k, j))) if lin else u.at(s, i, j)
            u.post('gradient = A^T sens', eq(u.at(o, i, j), e), hyps=[lt(i, n), lt(j, np_)])
mk('AffineMap'); mk('AffineFunction')

@unit(P, name='AffineMap_LogDeterminant', targets=N + 'AffineMap::LogDeterminantImpl')
def _(u):
    f, this, n, m, np_, A, b = affine(u, 'AffineMap', 'LogDeterminantImpl')
    p, o, j = u.view('pts', n, np_), u.view('out', np_), u.int('j')
    ld = u.load(this).f['logDet_']
    r = u.call(f, this, [p, o]); u.nothrow(r)
    u.post('log-determinant is the stored constant at every point', eq(u.at(o, j), ld), hyps=[lt(j, np_)])
@unit(P, name='AffineMap_LogDeterminantInputGrad', targets=N + 'AffineMap::LogDeterminantInputGradImpl')
def _(u):
    f, this, n, m, np_, A, b = affine(u, 'AffineMap', 'LogDeterminantInputGradImpl')
    p, o, i, j = u.view('pts', n, np_), u.view('out', n, np_), u.int('i'), u.int('j')
    r = u.call(f, this, [p, o]); u.nothrow(r)
    u.post('the gradient of a constant is zero, every entry overwritten', eq(u.at(o, i, j), R(0)), hyps=[lt(i, n), lt(j, np_)])
for meth, na in (('CoeffGradImpl', 3), ('LogDeterminantCoeffGradImpl', 2)):
    for cls in ('AffineMap', 'IdentityMap'):
        @unit(P, name='%s_%s' % (cls, meth), targets=N + cls + '::' + meth)
        def _(u, meth=meth, na=na, cls=cls):
            f = u.fn(N + cls + '::' + meth, nargs=na); this = u.obj(f)
            n, m, np_ = u.int('n'), u.int('m'), u.int('np')
            u.setf(this, inputDim=n, outputDim=m, numCoeffs=I(0))
            v = [u.view('pts', n, np_)] + ([u.view('sens', m, np_)] if na == 3 else []) + [u.view('out', I(0), np_)]
            r = u.call(f, this, v); u.nothrow(r)
            u.post('no coefficients: nothing to write, no failure', TRUE)

def lu_contract(u, S, m, det):
    """PartialPivLU of the m x m matrix S: compute stores S; determinant and solve refer to it"""
    L = N + 'PartialPivLU::'
    i, j, k = fresh('i', 'I'), fresh('j', 'I'), fresh('k', 'I')
    def comp(ex, st, c):
        a = ex.val(st, c.args[0])
        ex.oblige('precondition', st, and_(eq(a.ext[0], m), eq(a.ext[1], m)), c.loc, 'the factorised block is square of the output size')
        ex.oblige('precondition', st, all_(i, I(0), m, all_(j, I(0), m, eq(u.at(a, i, j, st=st), S(i, j)))), c.loc, 'the factorised block is the trailing square block of A')
        st.ghost['lu'] = TRUE
        return None
    def det_(ex, st, c):
        ex.oblige('precondition', st, st.ghost.get('lu', FALSE), c.loc, 'the factorisation was computed')
        return det
    def solve(ex, st, c):
        x = view_arg(ex, st, c, 0)
        ex.oblige('precondition', st, eq(x.ext[0], m), c.loc, 'solveInPlace: right-hand side has as many rows as the matrix')
        old = ex.load(st, x.buf)
        oldat = lambda a, b: rd(old, x.at([a, b]).steps[len(x.buf.steps):])
        X = lambda a, b: app('lusol', 'R', a, b)
        fill(ex, st, x, lambda a, b, o: X(a, b))
        ex.hyps.append(all_(i, I(0), m, all_(j, I(0), x.ext[1], eq(sum_(k, I(0), m, mul(S(i, k), X(k, j))), oldat(i, j)))))
        return None
    u.contract(L + 'compute', comp); u.contract(L + 'determinant', det_); u.contract(L + 'solveInPlace', solve)

for nm, lin, bias in CASES:
    @unit(P, name='AffineMap_Inverse (%s)' % nm, targets=N + 'AffineMap::InverseImpl')
    def _(u, lin=lin, bias=bias):
        f, this, n, m, np_, A, b = affine(u, 'AffineMap', 'InverseImpl', None, lin, bias)
        S = lambda i, k: u.at(A, i, add(sub(n, m), k))
        lu_contract(u, S, m, u.real('det'))
        x1, r_, o = u.view('x1', sub(n, m), np_), u.view('r', m, np_), u.view('out', m, np_)
        i, j, k = u.int('i'), u.int('j'), fresh('k', 'I')
        r = u.call(f, this, [x1, r_, o]); u.nothrow(r)
        if lin: e = add(sum_(k, I(0), sub(n, m), mul(u.at(A, i, k), u.at(x1, k, j))), sum_(k, I(0), m, mul(S(i, k), u.at(o, k, j))))
        else: e = u.at(o, i, j)
        if bias: e = add(e, u.at(b, i))
        u.post('A [x1; output] + b = r', eq(e, u.at(r_, i, j)), hyps=[lt(i, m), lt(j, np_)])
for rect in (False, True):
    @unit(P, name='AffineMap_Factorize (%s)' % ('rectangular' if rect else 'square'), targets=N + 'AffineMap::Factorize')
    def _(u, rect=rect):
        f, this, n, m, np_, A, b = affine(u, 'AffineMap', 'Factorize')
        u.assume(lt(m, n) if rect else eq(m, n))
        det = u.real('det'); u.layout(A, 'L')          # class invariant: every constructor allocates A_ itself
        lu_contract(u, lambda i, k: u.at(A, i, add(sub(n, m), k)), m, det)
        r = u.call(f, this, []); u.nothrow(r)
        u.post('logDet = log |det of the trailing square block|', eq(u.load(this).f['logDet_'], app('log', 'R', ite(ge(det, R(0)), det, neg(det)))))

def ident(u, meth, nargs=None):
    f = u.fn(N + 'IdentityMap::' + meth, nargs=nargs); this = u.obj(f)
    n, m, np_ = u.int('n'), u.int('m'), u.int('np')
    u.assume(le(I(1), m)); u.assume(le(m, n)); u.assume(le(n, I(2**30))); u.assume(le(np_, I(2**30)))
    u.setf(this, inputDim=n, outputDim=m, numCoeffs=I(0))
    return f, this, n, m, np_
@unit(P, name='IdentityMap_Evaluate', targets=N + 'IdentityMap::EvaluateImpl')
def _(u):
    f, this, n, m, np_ = ident(u, 'EvaluateImpl')
    p, o, i, j = u.view('pts', n, np_), u.view('out', m, np_), u.int('i'), u.int('j')
    r = u.call(f, this, [p, o]); u.nothrow(r)
    u.post('output = trailing inputs', eq(u.at(o, i, j), u.at(p, add(sub(n, m), i), j)), hyps=[lt(i, m), lt(j, np_)])
@unit(P, name='IdentityMap_Inverse', targets=N + 'IdentityMap::InverseImpl')
def _(u):
    f, this, n, m, np_ = ident(u, 'InverseImpl')
    x1, p, o, i, j = u.view('x1', sub(n, m), np_), u.view('r', m, np_), u.view('out', m, np_), u.int('i'), u.int('j')
    r = u.call(f, this, [x1, p, o]); u.nothrow(r)
    u.post('the inverse returns the target', eq(u.at(o, i, j), u.at(p, i, j)), hyps=[lt(i, m), lt(j, np_)])
@unit(P, name='IdentityMap_LogDeterminant', targets=N + 'IdentityMap::LogDeterminantImpl')
def _(u):
    f, this, n, m, np_ = ident(u, 'LogDeterminantImpl')
    p, o, j = u.view('pts', n, np_), u.view('out', np_), u.int('j')
    r = u.call(f, this, [p, o]); u.nothrow(r)
    u.post('zero log-determinant', eq(u.at(o, j), R(0)), hyps=[lt(j, np_)])
@unit(P, name='IdentityMap_Gradient', targets=N + 'IdentityMap::GradientImpl')
def _(u):
    f, this, n, m, np_ = ident(u, 'GradientImpl')
    p, s, o, i, j = u.view('pts', n, np_), u.view('sens', m, np_), u.view('out', n, np_), u.int('i'), u.int('j')
    r = u.call(f, this, [p, s, o]); u.nothrow(r)
    u.post('gradient: zero rows then the sensitivities', eq(u.at(o, i, j), ite(lt(i, sub(n, m)), R(0), u.at(s, sub(i, sub(n, m)), j))), hyps=[lt(i, n), lt(j, np_)])
@unit(P, name='IdentityMap_LogDeterminantInputGrad', targets=N + 'IdentityMap::LogDeterminantInputGradImpl')
def _(u):
    f, this, n, m, np_ = ident(u, 'LogDeterminantInputGradImpl')
    p, o, i, j = u.view('pts', n, np_), u.view('out', n, np_), u.int('i'), u.int('j')
    r = u.call(f, this, [p, o]); u.nothrow(r)
    u.post('zero gradient, every entry overwritten', eq(u.at(o, i, j), R(0)), hyps=[lt(i, n), lt(j, np_)])

def summ(u, meth):
    """SummarizedMap with summary S: R^sn -> R^sm and component T: R^(sm+1) -> R, both abstract"""
    f = u.fn(N + 'SummarizedMap::' + meth); this = u.obj(f)
    g = WorkerSpec()
    g.sn, g.sm, g.k, g.np = u.int('sn', 1), u.int('sm', 1), u.int('nc'), u.int('np')
    for t in (g.sn, g.sm, g.np): u.assume(le(t, I(2**30)))
    M = Maps(u, g.np)
    sp, g.s = M.new('summary', g.sn, g.sm, u.int('sk'), 'ParameterizedFunctionBase'); cp, g.c = M.new('component', add(g.sm, I(1)), I(1), g.k)
    u.setf(this, inputDim=add(g.sn, I(1)), outputDim=I(1), numCoeffs=g.k, sumFunc_=sp, comp_=cp)
    g.p = u.view('pts', add(g.sn, I(1)), g.np)
    p0 = u.load(g.p.buf)                       # the points before the call
    g.x = lambda i, j: lapp(lapp(p0, i), j)
    g.F = lambda nm: (lambda *a: app(nm, 'R', *a))
    g.s.on['EvaluateImpl'] = ([g.x], g.F('summary'))
    g.y = lambda i, j: ite(lt(i, g.sm), app('summary', 'R', i, j), g.x(g.sn, j))       # argument of the component
    return f, this, g
for meth, outname, rows in (('EvaluateImpl', 'value', 'one'), ('LogDeterminantImpl', 'logdet', None), ('CoeffGradImpl', 'cgrad', 'k'), ('LogDeterminantCoeffGradImpl', 'ldcgrad', 'k')):
    @unit(P, name='SummarizedMap_' + meth, targets=N + 'SummarizedMap::' + meth)
    def _(u, meth=meth, outname=outname, rows=rows):
        f, this, g = summ(u, meth)
        i, j = u.int('i'), u.int('j')
        R_ = {'one': I(1), 'k': g.k, None: None}[rows]
        o = u.view('out', R_, g.np) if rows else u.view('out', g.np)
        args = [g.p]; req = [g.y]
        if meth == 'CoeffGradImpl':
            sv = u.view('sens', I(1), g.np); s0 = u.load(sv.buf); args.append(sv); req.append(lambda i, j: lapp(lapp(s0, i), j))
        g.c.on[meth] = (req, g.F(outname))
        r = u.call(f, this, args + [o]); u.nothrow(r)
        if rows: u.post('the component %s at [summary(x); last input]' % outname, eq(u.at(o, i, j), app(outname, 'R', i, j)), hyps=[lt(i, R_), lt(j, g.np)])
        else: u.post('the component %s at [summary(x); last input]' % outname, eq(u.at(o, j), app(outname, 'R', j)), hyps=[lt(j, g.np)])
for meth, outname in (('GradientImpl', 'cgrad'), ('LogDeterminantInputGradImpl', 'ldgrad')):
    @unit(P, name='SummarizedMap_' + meth, targets=N + 'SummarizedMap::' + meth)
    def _(u, meth=meth, outname=outname):
        f, this, g = summ(u, meth)
        i, j = u.int('i'), u.int('j')
        o = u.view('out', add(g.sn, I(1)), g.np)
        args = [g.p]; req = [g.y]
        if meth == 'GradientImpl':
            sv = u.view('sens', I(1), g.np); s0 = u.load(sv.buf); args.append(sv); req.append(lambda i, j: lapp(lapp(s0, i), j))
        g.c.on[meth] = (req, g.F(outname))
        g.s.on['GradientImpl'] = ([g.x, g.F(outname)], g.F('schain'))      # the summary is back-propagated with the leading component gradients
        r = u.call(f, this, args + [o]); u.nothrow(r)
        u.post('chain rule through the summary; last row is the component gradient in its last input', eq(u.at(o, i, j), ite(lt(i, g.sn), app('schain', 'R', i, j), app(outname, 'R', g.sm, j))), hyps=[le(i, g.sn), lt(j, g.np)])
@unit(P, name='SummarizedMap_InverseImpl', targets=N + 'SummarizedMap::InverseImpl')
def _(u):
    f, this, g = summ(u, 'InverseImpl')
    i, j = u.int('i'), u.int('j')
    x1, rr, o = u.view('x1', g.sn, g.np), u.view('r', I(1), g.np), u.view('out', I(1), g.np)
    a0, r0 = u.load(x1.buf), u.load(rr.buf)
    g.s.on['EvaluateImpl'] = ([lambda i, j: lapp(lapp(a0, i), j)], g.F('summary'))
    g.c.on['InverseImpl'] = ([g.F('summary'), lambda i, j: lapp(lapp(r0, i), j)], g.F('cinverse'))
    r = u.call(f, this, [x1, rr, o])
    u.post('inverse of the component given the summary', eq(u.at(o, i, j), app('cinverse', 'R', i, j)), hyps=[lt(i, I(1)), lt(j, g.np)])
def rank_of(u, f, q): return [u.prog.unref(p['t']).get('s', '').count('*') for p in f['ps']][q]
for cls in ('AffineMap', 'AffineFunction'):
    for nm, lin, bias in CASES:
        @unit(P, name='%s_constructor (%s)' % (cls, nm), targets=N + cls + '::' + cls)
        def _(u, cls=cls, lin=lin, bias=bias):
            na = int(lin) + int(bias)
            f = u.fn(N + cls + '::' + cls, pred=lambda f: len(f['ps']) == na and not f.get('copy') and not f.get('move') and 'body' in f and rank_of(u, f, 0) == (2 if lin else 1))
            this = u.obj(f); m, n = u.int('m', 1), u.int('n', 1)
            u.assume(le(m, n)); u.assume(le(n, I(2**30)))
            if not lin: u.assume(eq(m, n))
            A, b = u.view('A', m, n), u.view('b', m)
            A0, b0 = u.load(A.buf), u.load(b.buf)
            det = u.real('det')
            if cls == 'AffineMap': lu_contract(u, lambda i, k: lapp(lapp(A0, i), add(sub(n, m), k)), m, det)
            r = u.call(f, this, [x for x, w in ((A, lin), (b, bias)) if w]); u.nothrow(r)
            F = u.load(this).f; i, k = u.int('i'), u.int('k')
            u.post('dimensions', and_(eq(F['inputDim'], n), eq(F['outputDim'], m), eq(F['numCoeffs'], I(0))))
            if lin: u.post('stores a copy of A', and_(eq(F['A_'].ext[0], m), eq(F['A_'].ext[1], n), eq(u.at(F['A_'], i, k), u.at(A, i, k)), B(F['A_'].buf != A.buf)), hyps=[lt(i, m), lt(k, n)])
            else: u.post('no linear part', eq(F['A_'].ext[0], I(0)))
            if bias: u.post('stores a copy of b', and_(eq(F['b_'].ext[0], m), eq(u.at(F['b_'], i), u.at(b, i)), B(F['b_'].buf != b.buf)), hyps=[lt(i, m)])
            else: u.post('no offset', eq(F['b_'].ext[0], I(0)))
            if cls == 'AffineMap':
                u.post('constant log-determinant', eq(F['logDet_'], app('log', 'R', ite(ge(det, R(0)), det, neg(det))) if lin else R(0)))
@unit(P, name='SummarizedMap_constructor', targets=N + 'SummarizedMap::SummarizedMap')
def _(u):
    f = u.fn(N + 'SummarizedMap::SummarizedMap', nargs=2); this = u.obj(f)
    M = Maps(u, u.int('np'))
    a, b, c, d, k = [u.int(x) for x in ('sn', 'sm', 'cn', 'cm', 'ck')]
    for x in (a, b, c, d): u.assume(le(x, I(2**30)))
    sp, s = M.new('summary', a, b, u.int('sk'), 'ParameterizedFunctionBase'); cp, t = M.new('component', c, d, k)
    r = u.call(f, this, [sp, cp])
    u.throws_iff(r, or_(ne(d, I(1)), ne(c, add(b, I(1)))), 'raises exactly when the component does not fit the summary')
    F = u.load(this).f
    u.post('dimensions and parts', and_(eq(F['inputDim'], add(a, I(1))), eq(F['outputDim'], d), eq(F['numCoeffs'], k), B(F['sumFunc_'] == sp), B(F['comp_'] == cp)))
