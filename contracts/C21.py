"""C21: quadrature rules have the documented points and weights, are applied as affine images, componentwise; adaptive rules test the documented error."""
from unit import *
from spec_common import *
import dense
P = 'C21'; TU = 'C21'
N = 'mpart::'
CC, AS, AC = (N + x + '::' for x in ('ClenshawCurtisQuadrature', 'AdaptiveSimpson', 'AdaptiveClenshawCurtis'))
pi = None
F_ = lambda x, j: app('f', 'R', x, j)
def integrand(u, fdim):
    """f: R -> R^fdim, a function of its argument; writes exactly fdim values"""
    def h(ex, st, c):
        x = ex.val(st, c.args[0]); p = ex.val(st, c.args[1])
        if not isinstance(p, Ptr): raise Unsupported('integrand output %r' % (p,))
        e = st.ghost.get(('ext', p.base.root))
        if e is not None: ex.oblige('precondition', st, le(add(p.off, fdim), e), c.loc, 'the integrand has room for its values')
        ex.oblige('precondition', st, ge(p.off, I(0)), c.loc, 'the integrand writes inside the array')
        j = fresh('w', 'I'); old = ex.load(st, p.base); r = sub(j, p.off)
        ex.store(st, p.base, lam(j, ite(and_(ge(r, I(0)), lt(r, fdim)), F_(x, r), lapp(old, j)))); return UNDEF
    u.contract('AbstractIntegrand::operator()', h)
    tid = next(i for i, t in enumerate(u.prog.types) if t.get('s') == 'AbstractIntegrand' and t['k'] == 'rec'); return u.obj(tid, 'f')
def body(u, name, *sig):
    def ok(f):
        if 'body' not in f: return False
        s = u.sig(f); return len(s) == len(sig) and all(a in b for a, b in zip(sig, s))
    return u.fn(name, pred=ok)
# ---- the Clenshaw-Curtis rule
def pt(n, i, pi):
    m = sub(n, I(1)); h = idiv(m, I(2))
    inner = app('cos', 'R', div(mul(toreal(sub(m, i)), pi), toreal(m)))
    return ite(eq(n, I(1)), R(0), ite(eq(i, I(0)), R(-1), ite(eq(i, m), R(1), ite(and_(eq(imod(n, I(2)), I(1)), eq(i, h)), R(0), inner))))
def wt(n, i, pi):
    m = sub(n, I(1)); j = fresh('j', 'I'); J = toreal(add(j, I(1)))
    th = div(mul(toreal(i), pi), toreal(m))
    s = sum_(j, I(0), idiv(m, I(2)), div(mul(ite(eq(mul(I(2), add(j, I(1))), m), R(1), R(2)), app('cos', 'R', mul(R(2), J, th))), sub(mul(R(4), J, J), R(1))))
    e = ite(or_(eq(i, I(0)), eq(i, m)), R(1), R(2))
    return ite(eq(n, I(1)), R(2), div(mul(e, sub(R(1), s)), toreal(m)))
PI = num(Fraction('3.141592653589793'), 'R')
def rule_contract(u):
    """GetRule fills the points and weights of the rule (proved below)"""
    def h(ex, st, c):
        n, w, p = [ex.val(st, a) for a in c.args]
        for q, nm in ((w, 'weights'), (p, 'points')):
            e = st.ghost.get(('ext', q.base.root))
            if e is not None: ex.oblige('precondition', st, and_(ge(q.off, I(0)), le(add(q.off, n), e)), c.loc, 'GetRule has room for the %s' % nm)
        write_cells(ex, st, w, n, lambda i, cur=None: app('ccw', 'R', n, i)); write_cells(ex, st, p, n, lambda i, cur=None: app('ccp', 'R', n, i)); return UNDEF
    u.contract(CC + 'GetRule', h)
@unit(P, name='GetRule', targets=CC + 'GetRule')
def _(u):
    f = body(u, CC + 'GetRule', 'int', 'ptr', 'ptr'); n = u.int('n'); u.assume(le(n, I(30000))); w, p = u.array('w', ext=n), u.array('p', ext=n)
    i = u.int('i'); w0, p0 = u.at(w, i), u.at(p, i)
    o = u.call(f, None, [n, w, p]); u.nothrow(o)
    u.post('points of the rule', eq(u.at(p, i), pt(n, i, PI)), hyps=[lt(i, n)])
    m = sub(n, I(1)); many = gt(n, I(1))
    for what, h in (('single point', [eq(n, I(1)), eq(i, I(0))]), ('left end', [many, eq(i, I(0))]), ('right end', [many, eq(i, m)]), ('interior', [many, gt(i, I(0)), lt(i, m)])):
        u.post('weights of the rule (%s)' % what, eq(u.at(w, i), wt(n, i, PI)), hyps=h)
    u.post('nothing else is written', and_(eq(u.at(w, i), w0), eq(u.at(p, i), p0)), hyps=[ge(i, n)])
@unit(P, name='GetRule (returning the rule)', targets=CC + 'GetRule')
def _(u):
    f = body(u, CC + 'GetRule', 'int'); rule_contract(u); n = u.int('n'); i = u.int('i')
    o = u.call(f, None, [n]); u.nothrow(o); w, p = o.ret.f['first'], o.ret.f['second']
    w, p = dense.expr(u.ex, u.st, w), dense.expr(u.ex, u.st, p)
    u.post('lengths', and_(eq(w.r, n), eq(p.r, n)))
    u.post('weights first, then points', and_(eq(w.fn(i, I(0)), app('ccw', 'R', n, i)), eq(p.fn(i, I(0)), app('ccp', 'R', n, i))), hyps=[lt(i, n)])
# ---- objects
def ccq(u, f):
    this = u.obj(f); n = u.int('n'); fd = u.int('fdim'); p, w = u.view('pts', n), u.view('wts', n); ws = u.array('ws', ext=fd)
    u.setf(this, fdim_=fd, maxDim_=u.int('maxDim'), workspaceSize_=fd, workspace_=ws, pts_=p, wts_=w, numPts_=n); return this, n, fd, p, w, ws
for own in (0, 1):
    @unit(P, name='ClenshawCurtisQuadrature_Integrate' + ('', ' (own workspace)')[own], targets=CC + 'Integrate')
    def _(u, own=own):
        f = body(u, CC + 'Integrate', *(['ptr'] * (1 - own) + ['AbstractIntegrand', 'real', 'real', 'ptr'])); this, n, fd, p, w, ws = ccq(u, f); g = integrand(u, fd)
        lb, ub = u.real('lb'), u.real('ub'); res = u.array('res', ext=fd); j = u.int('j'); r0 = u.at(res, j); i = fresh('i', 'I')
        h = sub(ub, lb); small = lt(ite(ge(h, R(0)), h, neg(h)), num(Fraction(1, 10**14), 'R')); half = num(Fraction(1, 2), 'R')
        rule = sum_(i, I(0), n, mul(half, h, u.at(w, i), F_(mul(half, add(add(ub, lb), mul(h, u.at(p, i)))), j)))
        o = u.call(f, this, ([] if own else [ws]) + [g, lb, ub, res]); u.nothrow(o)
        u.post('component j is the affine image of the rule applied to component j', eq(u.at(res, j), rule), hyps=[lt(j, fd), not_(small)])
        u.post('an interval at the level of rounding is integrated by the rule or by its midpoint', or_(eq(u.at(res, j), rule), eq(u.at(res, j), mul(F_(mul(half, add(ub, lb)), j), h))), hyps=[lt(j, fd)])
        u.post('only the requested components are written', eq(u.at(res, j), r0), hyps=[ge(j, fd)])
for cl, size in ((CC, lambda m, d: d), (AS, lambda m, d: add(mul(add(mul(I(2), m), I(5)), d), mul(I(2), m))), (AC, lambda m, d: add(mul(add(m, I(5)), d), mul(I(2), m)))):
    @unit(P, name=cl.split('::')[1] + '_GetWorkspaceSize', targets=cl + 'GetWorkspaceSize')
    def _(u, cl=cl, size=size):
        f = u.fn(cl + 'GetWorkspaceSize'); m, d = u.int('maxSub'), u.int('fdim'); o = u.call(f, None, [d] if cl == CC else [m, d]); u.nothrow(o)
        u.post('workspace holds all function values of the rule', eq(o.ret, size(m, d)))
    @unit(P, name=cl.split('::')[1] + '_SetDim', targets=cl + 'SetDim')
    def _(u, cl=cl, size=size):
        f = u.fn(cl + 'SetDim'); this = u.obj(f); F = u.fields(this); d = u.int('fdim'); m = F.get('maxSub_', I(0)); md = F['maxDim_']
        u.assume(and_(ge(m, I(0)), le(d, md), eq(F['internalWork_'].ext[0], ite(u.bool('internal'), size(m, md), I(0))))); u.assume(le(mul(add(m, I(0)), d), mul(add(m, I(0)), md)))
        o = u.call(f, this, [d]); u.nothrow(o); G = u.fields(this)
        u.post('dimension and workspace size are updated', and_(eq(G['fdim_'], d), eq(G['workspaceSize_'], size(m, d))))
@unit(P, name='QuadratureBase_SetDim', targets=N + 'QuadratureBase::SetDim')
def _(u):
    f = u.fn(N + 'QuadratureBase::SetDim'); this = u.obj(f); d = u.int('d'); u.assume(le(d, u.fields(this)['maxDim_'])); o = u.call(f, this, [d]); u.nothrow(o)
    u.post('dimension', eq(u.fields(this)['fdim_'], d))
@unit(P, name='QuadratureBase_SetWorkspace', targets=N + 'QuadratureBase::SetWorkspace')
def _(u):
    f = u.fn(N + 'QuadratureBase::SetWorkspace'); this = u.obj(f); p = u.array('ws'); o = u.call(f, this, [p]); u.nothrow(o)
    u.post('workspace', B(u.fields(this)['workspace_'] == p))
# ---- construction
def ws_ok(u, F, st, d, size, ws=None):
    u.post('dimension and workspace size', and_(eq(F['fdim_'], d), eq(F['maxDim_'], d), eq(F['workspaceSize_'], size)))
    if ws is not None: u.post('uses the given workspace', B(F['workspace_'] == ws))
    else: p = F['workspace_']; u.post('allocates a workspace of that size', and_(B(isinstance(p, Ptr)), ge(st.ghost.get(('ext', p.base.root), I(-1)), size), eq(p.off, I(0))))
def rule_ok(u, p, w, n, what):
    i = u.int('i'); u.post('holds the %s rule' % what, and_(eq(p.ext[0], n), eq(w.ext[0], n), imp(lt(i, n), and_(eq(u.at(p, i), app('ccp', 'R', n, i)), eq(u.at(w, i), app('ccw', 'R', n, i))))))
    u.post('points and weights of the %s rule are separate memory' % what, B(p.buf != w.buf))
for ws in (0, 1):
    @unit(P, name='ClenshawCurtisQuadrature_constructor' + ('', ' (workspace)')[ws], targets=CC + 'ClenshawCurtisQuadrature')
    def _(u, ws=ws):
        f = body(u, CC + 'ClenshawCurtisQuadrature', *['int', 'int', 'ptr'][:2 + ws]); rule_contract(u); this = u.obj(f); n, d = u.int('n'), u.int('d'); p = u.array('ws')
        o = u.call(f, this, [n, d] + [p] * ws); u.nothrow(o); F = u.fields(this); ws_ok(u, F, o.st, d, d, p if ws else None); rule_ok(u, F['pts_'], F['wts_'], n, 'requested'); u.post('number of points', eq(F['numPts_'], n))
@unit(P, name='ClenshawCurtisQuadrature_constructor (views)', targets=CC + 'ClenshawCurtisQuadrature')
def _(u):
    f = body(u, CC + 'ClenshawCurtisQuadrature', 'View', 'View', 'int', 'ptr'); rule_contract(u); this = u.obj(f); n, d = u.int('n'), u.int('d'); p = u.array('ws'); a, b = u.view('a', n), u.view('b', n)
    o = u.call(f, this, [a, b, d, p]); u.nothrow(o); F = u.fields(this); ws_ok(u, F, o.st, d, d, p); rule_ok(u, F['pts_'], F['wts_'], n, 'requested'); u.post('stored in the given memory', B(F['pts_'] == a and F['wts_'] == b))
def rec_ok(u, F, m, mn, at, rt, q): u.post('limits, tolerances and error metric', and_(eq(F['maxSub_'], m), eq(F['minSub_'], mn), eq(F['absTol_'], at), eq(F['relTol_'], rt), eq(F['errorMetric_'], q)))
def lim(u): return u.int('maxSub'), u.int('d'), u.real('at'), u.real('rt'), u.int('metric'), u.int('minSub')
for ws in (0, 1):
    @unit(P, name='AdaptiveSimpson_constructor' + ('', ' (workspace)')[ws], targets=AS + 'AdaptiveSimpson')
    def _(u, ws=ws):
        f = u.fn(AS + 'AdaptiveSimpson', nargs=6 + ws); this = u.obj(f); m, d, at, rt, q, mn = lim(u); p = u.array('ws')
        o = u.call(f, this, [m, d] + [p] * ws + [at, rt, q, mn]); u.nothrow(o); F = u.fields(this); rec_ok(u, F, m, mn, at, rt, q); ws_ok(u, F, o.st, d, add(mul(add(mul(I(2), m), I(5)), d), mul(I(2), m)), p if ws else None)
LEVELS = range(1, 9)
for lev in LEVELS:
    for kind in ('owned', 'workspace', 'views'):
        @unit(P, name='AdaptiveClenshawCurtis_constructor (%s, level %d)' % (kind, lev), targets=AC + 'AdaptiveClenshawCurtis')
        def _(u, lev=lev, kind=kind):
            f = u.fn(AC + 'AdaptiveClenshawCurtis', nargs=dict(owned=7, workspace=8, views=11)[kind]); rule_contract(u); this = u.obj(f); m, d, at, rt, q, mn = lim(u); p = u.array('ws'); nc, nf = I(2**lev + 1), I(2**(lev + 1) + 1)
            if kind == 'views': vs = [u.view('v%d' % k, n) for k, n in enumerate((nc, nc, nf, nf))]; a = vs + [m, d, p]
            else: a = [I(lev), m, d] + ([p] if kind == 'workspace' else [])
            o = u.call(f, this, a + [at, rt, q, mn]); u.nothrow(o); F = u.fields(this); rec_ok(u, F, m, mn, at, rt, q); ws_ok(u, F, o.st, d, add(mul(add(m, I(5)), d), mul(I(2), m)), None if kind == 'owned' else p)
            rule_ok(u, F['coarsePts_'], F['coarseWts_'], nc, 'coarse'); rule_ok(u, F['finePts_'], F['fineWts_'], nf, 'fine')
# ---- error estimate of the adaptive rules
absr = lambda t: ite(ge(t, R(0)), t, neg(t))
METRICS = ('First', 'NormInf', 'Norm2', 'Norm1')
for q, nm in enumerate(METRICS):
    @unit(P, name='EstimateError (%s)' % nm, targets=N + 'RecursiveQuadratureBase::EstimateError')
    def _(u, q=q, nm=nm):
        f = u.fn(N + 'RecursiveQuadratureBase::EstimateError'); this = u.obj(f); d = u.int('fdim'); at, rt = u.real('absTol'), u.real('relTol')
        u.assume(ge(d, I(1))); u.setf(this, fdim_=d, absTol_=at, relTol_=rt, errorMetric_=I(q)); c, fi = u.array('coarse', ext=d), u.array('fine', ext=d); e, t = u.ref(u.real('e0')), u.ref(u.real('t0'))
        o = u.call(f, this, [c, fi, e, t]); u.nothrow(o); E, Tl = u.load(e), u.load(t); i = fresh('i', 'I')
        df = lambda i: absr(sub(u.at(fi, i), u.at(c, i))); rf = lambda i: absr(u.at(c, i))
        S = lambda g: sum_(i, I(0), d, g(i)); rel = u.real('rel')
        tol = lambda r: ite(ge(mul(rt, r), at), mul(rt, r), at)
        if nm == 'First': u.post('error of the first component', eq(E, df(I(0)))); u.post('tolerance', eq(Tl, tol(rf(I(0)))))
        elif nm == 'Norm1': u.post('1-norm of the difference', eq(E, S(df))); u.post('tolerance', eq(Tl, tol(S(rf))))
        elif nm == 'Norm2':
            u.post('2-norm of the difference', eq(E, app('sqrt', 'R', S(lambda i: mul(sub(u.at(fi, i), u.at(c, i)), sub(u.at(fi, i), u.at(c, i))))))); u.post('tolerance', eq(Tl, tol(app('sqrt', 'R', S(lambda i: mul(u.at(c, i), u.at(c, i)))))))
        else:
            k = u.int('k')
            u.post('no component differs by more than the error', ge(E, df(k)), hyps=[lt(k, d)])
            m = fresh('m', 'I'); u.post('the error is the difference of a component', any_(m, I(0), d, eq(E, df(m))))
            u.post('tolerance is the larger of the absolute one and the relative one', any_(m, I(0), d, and_(eq(Tl, tol(rf(m))), all_(i, I(0), d, le(rf(i), rf(m))))))
