"""C13: composed maps: layers applied in order, inverses in reverse, chain rule through every layer."""
from unit import *
from spec_common import *
P = 'C13'; TU = 'C13'
N = 'mpart::ComposedMap::'

def comp(u, meth):
    """ComposedMap under its class invariant (established by the constructor): K square layers of n inputs, layer k owns coefficients [Q(k), Q(k+1))"""
    f = u.fn(N + meth, pred=lambda f: 'body' in f); this = u.obj(f)
    g = WorkerSpec(); g.K, g.n, g.np = u.int('K', 1), u.int('n'), u.int('np')
    g.c = c = Comps(u, g.K, g.np, size=g.n); g.k = u.int('nc'); g.mc = u.int('maxChecks', 1)
    u.setf(this, inputDim=g.n, outputDim=g.n, numCoeffs=g.k, maps_=c.vec, maxChecks_=g.mc)
    u.assume(eq(g.k, c.Q(g.K)))
    for t in (g.n, g.np, g.k, g.K): u.assume(le(t, I(2**30)))
    swap_contract(u)
    return f, this, g
def X(p0):
    """input of layer k: the points themselves for the first, else the output of the layer before"""
    return lambda k, i, j: ite(le(k, I(0)), lapp(lapp(p0, i), j), app('X', 'R', k, i, j))
def XO(k, i, j): return app('X', 'R', add(k, I(1)), i, j)
def layer_inputs(u, g, p0):
    """contract of the checkpointer: GetLayerInput(k) returns the input of layer k; earlier results may be overwritten by it"""
    prev = []
    x = X(p0)
    def get(ex, st, c):
        k = ex.val(st, c.args[0])
        ex.oblige('precondition', st, and_(ge(k, I(0)), lt(k, g.K)), c.loc, 'GetLayerInput: an existing layer')
        a, b = fresh('i', 'I'), fresh('j', 'I')
        for r in prev:
            if r.root in st.store: ex.store(st, r, lam(a, lam(b, app('stale.%s' % r.root, 'R', a, b))))
        r = ex.newroot(st, lam(a, lam(b, x(k, a, b))), 'layer'); prev.append(r)
        ex.allocd[r.root] = True
        return View(r, [('a', I(0))] * 2, [g.n, g.np])
    u.contract(N + 'Checkpointer::GetLayerInput', get)
    def ctor(ex, st, c):
        m, p, v = [ex.val(st, a) for a in c.args]; a, b = fresh('a', 'I'), fresh('b', 'I')
        ex.oblige('precondition', st, ge(m, I(1)), c.loc, 'Checkpointer: at least one checkpoint')
        ex.oblige('precondition', st, and_(eq(p.ext[0], g.n), eq(p.ext[1], g.np), imp(and_(ge(a, I(0)), lt(a, g.n), ge(b, I(0)), lt(b, g.np)), eq(u.at(p, a, b, st=st), lapp(lapp(p0, a), b)))), c.loc, 'Checkpointer starts from the points of the call')
        ex.oblige('precondition', st, B(isinstance(v, Vec) and v.e == g.c.vec.e), c.loc, 'Checkpointer runs through the layers of this map')
        return Rec('mpart::ComposedMap::Checkpointer', {})
    u.contract(N + 'Checkpointer::Checkpointer', ctor)
@unit(P, targets=N + 'EvaluateImpl')
def Composed_Evaluate(u):
    f, this, g = comp(u, 'EvaluateImpl'); c = g.c
    p, o = u.view('pts', g.n, g.np), u.view('out', g.n, g.np); p0 = u.load(p.buf)
    c.on['EvaluateImpl'] = ([X(p0)], XO)
    i, j = u.int('i'), u.int('j'); u.assume(lt(i, g.n)); u.assume(lt(j, g.np))
    r = u.call(f, this, [p, o]); u.nothrow(r)
    u.post('the layers applied in order', eq(u.at(o, i, j), app('X', 'R', g.K, i, j)))
@unit(P, targets=N + 'InverseImpl')
def Composed_Inverse(u):
    f, this, g = comp(u, 'InverseImpl'); c = g.c
    e1 = u.int('rows1'); x1, r_, o = u.view('x1', e1, g.np), u.view('r', g.n, g.np), u.view('out', g.n, g.np); x0, r0 = u.load(x1.buf), u.load(r_.buf)
    R_ = lambda k, i, j: ite(ge(k, g.K), lapp(lapp(r0, i), j), app('Y', 'R', k, i, j))
    c.on['InverseImpl'] = ([lambda k, i, j: lapp(lapp(x0, i), j), lambda k, i, j: R_(add(k, I(1)), i, j)], lambda k, i, j: app('Y', 'R', k, i, j))
    i, j = u.int('i'), u.int('j'); u.assume(lt(i, g.n)); u.assume(lt(j, g.np))
    r = u.call(f, this, [x1, r_, o]); u.nothrow(r)
    u.post('the inverses applied in reverse order', eq(u.at(o, i, j), app('Y', 'R', I(0), i, j)))
@unit(P, targets=N + 'LogDeterminantImpl')
def Composed_LogDeterminant(u):
    f, this, g = comp(u, 'LogDeterminantImpl'); c = g.c
    p, o = u.view('pts', g.n, g.np), u.view('out', g.np); p0 = u.load(p.buf)
    c.on['EvaluateImpl'] = ([X(p0)], XO)
    c.on['LogDeterminantImpl'] = ([X(p0)], lambda k, j: app('ld', 'R', k, j))
    j = u.int('j'); u.assume(lt(j, g.np))
    r = u.call(f, this, [p, o]); u.nothrow(r)
    q = fresh('q', 'I')
    u.induct('first layer split off', g.K, lambda n: eq(sum_(q, I(0), add(n, I(1)), app('ld', 'R', q, j)), add(app('ld', 'R', I(0), j), sum_(q, I(0), n, app('ld', 'R', add(q, I(1)), j)))))
    u.post('sum of the layer log-determinants at the intermediate points', eq(u.at(o, j), sum_(q, I(0), g.K, app('ld', 'R', q, j))))
def backward(u, g, p0, s0):
    """sensitivity entering layer k from above: the given one for the last layer, else what the layer above produced"""
    c = g.c
    S = lambda k, i, j: ite(ge(k, sub(g.K, I(1))), lapp(lapp(s0, i), j), app('S', 'R', add(k, I(1)), i, j))
    c.on['GradientImpl'] = ([X(p0), S], lambda k, i, j: app('S', 'R', k, i, j))
    layer_inputs(u, g, p0)
    return S
@unit(P, targets=N + 'GradientImpl')
def Composed_Gradient(u):
    f, this, g = comp(u, 'GradientImpl'); c = g.c
    p, s, o = u.view('pts', g.n, g.np), u.view('sens', g.n, g.np), u.view('out', g.n, g.np); p0, s0 = u.load(p.buf), u.load(s.buf)
    backward(u, g, p0, s0)
    i, j = u.int('i'), u.int('j'); u.assume(lt(i, g.n)); u.assume(lt(j, g.np))
    r = u.call(f, this, [p, s, o]); u.nothrow(r)
    u.post('sensitivities pulled back through every layer at its own input', eq(u.at(o, i, j), app('S', 'R', I(0), i, j)))
def own(u, g, w, s=0):
    """layers counted from layer M-1 = K-s-1 downwards: their coefficient blocks end at T(q) before Q(M), start at Q(M-1-q), and cover every row below Q(M)"""
    c = g.c; q = fresh('q', 'I'); n = fresh('n', 'I'); M = sub(g.K, I(s)); back = lambda q: sub(sub(M, I(1)), q)
    if s == 0: u.prefix_sums(c.nco, g.K, 'coefficient counts')
    T = lambda n: sum_(q, I(0), n, c.nco(back(q)))
    u.lemma('coefficients of the first layers', eq(c.Q(M), sub(g.k, c.nco(sub(g.K, I(1)))) if s else g.k))
    split = lambda n: eq(c.Q(add(sub(M, n), I(1))), add(c.Q(sub(M, n)), c.nco(sub(M, n))))
    u.lemma_all('last term of a prefix sum', n, I(1), add(M, I(1)), split(n))
    tot = lambda n: imp(le(n, M), eq(T(n), sub(c.Q(M), c.Q(sub(M, n)))))
    u.induct('coefficients counted from the last layer', M, tot, facts=[lambda n: imp(and_(le(I(1), n), le(n, M)), split(n))])(M)
    end = sub(g.k, c.nco(sub(g.K, I(1)))) if s else g.k
    u.lemma_all('where a block starts', n, I(0), M, eq(add(c.Q(back(n)), c.nco(back(n)), T(n)), end), facts=[tot(n), tot(add(n, I(1))), split(add(n, I(1)))])
    u.lemma_all('a block lies inside the coefficients', n, I(0), M, ge(c.Q(back(n)), I(0)))
    cov = lambda n: imp(and_(le(n, M), lt(w, end), ge(w, sub(end, T(n)))), any_(q, I(0), n, and_(lt(w, sub(end, T(q))), ge(w, sub(sub(end, T(q)), c.nco(back(q)))))))
    u.induct('row is owned by a layer', M, cov)(M)
    u.lemma('every row is owned by a layer', any_(q, I(0), M, and_(lt(w, sub(end, T(q))), ge(w, sub(sub(end, T(q)), c.nco(back(q)))))), hyps=[lt(w, end)] if s else [])
@unit(P, targets=N + 'CoeffGradImpl')
def Composed_CoeffGrad(u):
    f, this, g = comp(u, 'CoeffGradImpl'); c = g.c
    p, s, o = u.view('pts', g.n, g.np), u.view('sens', g.n, g.np), u.view('out', g.k, g.np); p0, s0 = u.load(p.buf), u.load(s.buf)
    S = backward(u, g, p0, s0)
    c.on['CoeffGradImpl'] = ([X(p0), S], lambda k, i, j: app('cg', 'R', add(c.Q(k), i), j))
    i, j = u.int('i'), u.int('j'); u.assume(lt(i, g.k)); u.assume(lt(j, g.np))
    own(u, g, i)
    r = u.call(f, this, [p, s, o]); u.nothrow(r)
    u.post('coefficient row i is the coefficient gradient of the layer owning it, at its input and sensitivity', eq(u.at(o, i, j), app('cg', 'R', i, j)))
def logdet_back(u, g, p0):
    """sensitivity of the log-determinants of layers k.. to the input of layer k: V(k) = pullback of V(k+1) through layer k + own log-determinant gradient"""
    c = g.c; last = sub(g.K, I(1))
    V = lambda k, i, j: ite(ge(k, last), app('dl', 'R', k, i, j), add(app('S', 'R', k, i, j), app('dl', 'R', k, i, j)))
    c.on['GradientImpl'] = ([X(p0), lambda k, i, j: V(add(k, I(1)), i, j)], lambda k, i, j: app('S', 'R', k, i, j))
    c.on['LogDeterminantInputGradImpl'] = ([X(p0)], lambda k, i, j: app('dl', 'R', k, i, j))
    layer_inputs(u, g, p0)
    return V
@unit(P, targets=N + 'LogDeterminantInputGradImpl')
def Composed_LogDeterminantInputGrad(u):
    f, this, g = comp(u, 'LogDeterminantInputGradImpl'); c = g.c
    p, o = u.view('pts', g.n, g.np), u.view('out', g.n, g.np); p0 = u.load(p.buf)
    V = logdet_back(u, g, p0)
    i, j = u.int('i'), u.int('j'); u.assume(lt(i, g.n)); u.assume(lt(j, g.np))
    r = u.call(f, this, [p, o]); u.nothrow(r)
    u.post('gradient of the total log-determinant by the chain rule', eq(u.at(o, i, j), V(I(0), i, j)))
@unit(P, targets=N + 'LogDeterminantCoeffGradImpl')
def Composed_LogDeterminantCoeffGrad(u):
    f, this, g = comp(u, 'LogDeterminantCoeffGradImpl'); c = g.c
    p, o = u.view('pts', g.n, g.np), u.view('out', g.k, g.np); p0 = u.load(p.buf)
    V = logdet_back(u, g, p0); last = sub(g.K, I(1))
    c.on['LogDeterminantCoeffGradImpl'] = ([X(p0)], lambda k, i, j: app('dc', 'R', add(c.Q(k), i), j))
    c.on['CoeffGradImpl'] = ([X(p0), lambda k, i, j: V(add(k, I(1)), i, j)], lambda k, i, j: app('cg', 'R', add(c.Q(k), i), j))
    i, j = u.int('i'), u.int('j'); u.assume(lt(i, g.k)); u.assume(lt(j, g.np))
    u.prefix_sums(c.nco, g.K, 'coefficient counts'); own(u, g, i, 1)
    r = u.call(f, this, [p, o]); u.nothrow(r)
    u.post('own log-determinant gradient plus the effect on later layers', eq(u.at(o, i, j), add(app('dc', 'R', i, j), ite(lt(i, c.Q(last)), app('cg', 'R', i, j), R(0)))))

for cf in (False, True):
    @unit(P, name='Composed_constructor' + (' (moving coefficients)' if cf else ''), targets=N + 'ComposedMap')
    def _(u, cf=cf):
        f = u.fn(N + 'ComposedMap', pred=lambda f: len(f['ps']) == 3 and 'body' in f); this = u.obj(f)
        K = u.int('K', 1); c = Comps(u, K, u.int('np')); mc = u.int('maxChecks', -2**31); u.assume(le(mc, I(2**31 - 1))); u.assume(le(K, I(2**30)))
        q = fresh('q', 'I'); u.assume(all_(q, I(0), K, and_(le(c.nin(q), I(2**30)), le(c.nout(q), I(2**30)), le(c.nco(q), I(2**30)))))
        u.prefix_sums(c.nco, K, 'coefficient counts'); u.assume(le(c.Q(K), I(2**30)))
        if cf: c.coeffs()
        bad = or_(any_(q, I(0), K, ne(c.nin(q), c.nout(q))), any_(q, I(1), K, ne(c.nin(q), c.nout(sub(q, I(1))))))
        r = u.call(f, this, [c.vec, B(cf), mc])
        u.throws_iff(r, or_(bad, any_(q, I(0), K, not_(c.isset(q)))) if cf else bad, 'raises exactly when the layers are not all square of one size%s' % (' or a layer has no coefficients' if cf else ''))
        F = u.load(this).f
        u.post('sizes: those of the layers, coefficients the total over the layers', and_(eq(F['inputDim'], c.nin(I(0))), eq(F['outputDim'], c.nin(I(0))), eq(F['numCoeffs'], c.Q(K))))
        same = lambda k: imp(lt(k, K), and_(eq(c.nin(k), c.nin(I(0))), eq(c.nout(k), c.nin(I(0)))))
        u.induct('all layers have the size of the first', K, same, hyps=[not_(bad)])
        u.post('at least one checkpoint, all of them when none were asked for', eq(F['maxChecks_'], ite(le(mc, I(0)), K, mc)))
