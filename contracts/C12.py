"""C12: block-triangular maps: component k owns its block of output rows, coefficients and leading inputs."""
from unit import *
from spec_common import *
P = 'C12'; TU = 'C12'
N = 'mpart::TriangularMap::'

def tri(u, meth, nargs=None):
    """TriangularMap under its class invariant (established by the constructor): component k reads the first
    extra + S(k+1) inputs, owns output rows [S(k), S(k+1)) and coefficients [Q(k), Q(k+1))"""
    f = u.fn(N + meth, nargs=nargs); this = u.obj(f)
    g = WorkerSpec(); g.K, g.np = u.int('K', 1), u.int('np')
    g.c = c = Comps(u, g.K, g.np)
    g.n, g.m, g.k = u.int('n'), u.int('m'), u.int('nc'); g.extra = sub(g.n, g.m); u.assume(le(g.m, g.n))
    u.setf(this, inputDim=g.n, outputDim=g.m, numCoeffs=g.k, comps_=c.vec)
    u.assume(eq(g.m, c.S(g.K))); u.assume(eq(g.k, c.Q(g.K)))
    q = fresh('q', 'I')
    u.assume(all_(q, I(0), g.K, eq(c.nin(q), add(g.extra, c.S(q), c.nout(q)))))
    for t in (g.n, g.np, g.k): u.assume(le(t, I(2**30)))
    u.prefix_sums(c.nout, g.K, 'output sizes'); u.prefix_sums(c.nco, g.K, 'coefficient counts')
    return f, this, g
def cover(u, g, S, len_, w, off=I(0)):
    """every row below S(n) is owned by one of the first n components"""
    q = fresh('q', 'I')
    u.induct('row is owned by a component', g.K, lambda n: imp(and_(le(n, g.K), ge(w, off), lt(w, add(off, S(n)))), any_(q, I(0), n, and_(ge(w, add(off, S(q))), lt(w, add(off, S(q), len_(q)))))))

@unit(P, targets=N + 'EvaluateImpl')
def Triangular_Evaluate(u):
    f, this, g = tri(u, 'EvaluateImpl'); c = g.c
    p, o = u.view('pts', g.n, g.np), u.view('out', g.m, g.np); p0 = u.load(p.buf)
    c.on['EvaluateImpl'] = ([lambda k, i, j: lapp(lapp(p0, i), j)], lambda k, i, j: app('E', 'R', add(c.S(k), i), j))
    i, j = u.int('i'), u.int('j'); u.assume(lt(i, g.m)); u.assume(lt(j, g.np))
    cover(u, g, c.S, c.nout, i)
    r = u.call(f, this, [p, o]); u.nothrow(r)
    u.post('row i is the output of the component owning it, at the leading inputs', eq(u.at(o, i, j), app('E', 'R', i, j)))
def IN(v0): return lambda k, i, j: lapp(lapp(v0, i), j)
def BLK(v0, S): return lambda k, i, j: lapp(lapp(v0, add(S(k), i)), j)
def G(nm, S=None): return (lambda k, i, j: app(nm, 'R', add(S(k), i), j)) if S else (lambda k, *a: app(nm, 'R', k, *a))

@unit(P, targets=N + 'InverseInplace')
def Triangular_InverseInplace(u):
    f, this, g = tri(u, 'InverseInplace'); c = g.c
    x, r_ = u.view('x', g.n, g.np), u.view('r', g.m, g.np); x0, r0 = u.load(x.buf), u.load(r_.buf)
    i, j = u.int('i'), u.int('j'); u.assume(lt(i, g.n)); u.assume(lt(j, g.np))
    inverse_comp(u, g, x0, r0)
    cover(u, g, c.S, c.nout, i, g.extra)
    r = u.call(f, this, [x, r_]); u.nothrow(r)
    u.post('leading inputs kept; row extra+i solved by the component owning it, from the rows solved before', eq(u.at(x, i, j), ite(lt(i, g.extra), lapp(lapp(x0, i), j), app('X', 'R', sub(i, g.extra), j))))
def inverse_comp(u, g, x0, r0):
    """component k solves for its own block given the leading inputs and the blocks solved before it"""
    c = g.c
    X = lambda k, i, j: ite(lt(i, g.extra), lapp(lapp(x0, i), j), app('X', 'R', sub(i, g.extra), j))
    c.on['InverseImpl'] = ([X, BLK(r0, c.S)], G('X', c.S))
    # lemma, for an arbitrary row w and by induction on the number of components: a row below S(n) is owned by an earlier component
    w, q = fresh('w', 'I'), fresh('q', 'I')
    L = lambda n, w: imp(and_(le(n, g.K), ge(w, I(0)), lt(w, c.S(n))), any_(q, I(0), n, and_(ge(w, c.S(q)), lt(w, add(c.S(q), c.nout(q))))))
    u.induct('earlier rows are solved', g.K, lambda n: L(n, w))
    c.facts = lambda k, i, j: L(k, sub(i, g.extra))

@unit(P, targets=N + 'InverseImpl')
def Triangular_Inverse(u):
    f, this, g = tri(u, 'InverseImpl'); c = g.c
    e1 = u.int("rows1"); u.assume(ge(e1, g.extra)); u.assume(le(e1, g.n)); x1, r_, o = u.view("x1", e1, g.np), u.view('r', g.m, g.np), u.view('out', g.m, g.np); x0, r0 = u.load(x1.buf), u.load(r_.buf)
    i, j = u.int('i'), u.int('j'); u.assume(lt(i, g.m)); u.assume(lt(j, g.np))
    def inplace(ex, st, cc):
        x, r = view_arg(ex, st, cc, 0), view_arg(ex, st, cc, 1); a, b = fresh('a', 'I'), fresh('b', 'I')
        ex.oblige('precondition', st, and_(eq(x.ext[0], g.n), eq(x.ext[1], g.np), eq(r.ext[0], g.m), eq(r.ext[1], g.np)), cc.loc, 'InverseInplace: shapes')
        ex.oblige('precondition', st, imp(and_(ge(a, I(0)), lt(a, g.extra), ge(b, I(0)), lt(b, g.np)), eq(u.at(x, a, b, st=st), lapp(lapp(x0, a), b))), cc.loc, 'InverseInplace: leading inputs in place')
        ex.oblige('precondition', st, imp(and_(ge(a, I(0)), lt(a, g.m), ge(b, I(0)), lt(b, g.np)), eq(u.at(r, a, b, st=st), lapp(lapp(r0, a), b))), cc.loc, 'InverseInplace: targets')
        fill(ex, st, x, lambda a, b, old: ite(lt(a, g.extra), old, app('X', 'R', sub(a, g.extra), b)))
        return None
    u.contract(N + 'InverseInplace', inplace)
    r = u.call(f, this, [x1, r_, o]); u.nothrow(r)
    u.post('the solved block', eq(u.at(o, i, j), app('X', 'R', i, j)))

@unit(P, targets=N + 'LogDeterminantImpl')
def Triangular_LogDeterminant(u):
    f, this, g = tri(u, 'LogDeterminantImpl'); c = g.c
    p, o = u.view('pts', g.n, g.np), u.view('out', g.np); p0 = u.load(p.buf)
    c.on['LogDeterminantImpl'] = ([IN(p0)], G('ld'))
    j = u.int('j'); u.assume(lt(j, g.np))
    r = u.call(f, this, [p, o]); u.nothrow(r)
    q = fresh('q', 'I')
    u.induct('first component split off', g.K, lambda n: eq(sum_(q, I(0), add(n, I(1)), app('ld', 'R', q, j)), add(app('ld', 'R', I(0), j), sum_(q, I(0), n, app('ld', 'R', add(q, I(1)), j)))))
    u.post('sum of the component log-determinants at their leading inputs', eq(u.at(o, j), sum_(q, I(0), g.K, app('ld', 'R', q, j))))
@unit(P, targets=N + 'GradientImpl')
def Triangular_Gradient(u):
    f, this, g = tri(u, 'GradientImpl'); c = g.c
    p, s, o = u.view('pts', g.n, g.np), u.view('sens', g.m, g.np), u.view('out', g.n, g.np); p0, s0 = u.load(p.buf), u.load(s.buf)
    c.on['GradientImpl'] = ([IN(p0), BLK(s0, c.S)], G('g'))
    i, j = u.int('i'), u.int('j'); u.assume(lt(i, g.n)); u.assume(lt(j, g.np))
    r = u.call(f, this, [p, s, o]); u.nothrow(r)
    q = fresh('q', 'I')
    u.post('sum of the component gradients for their sensitivity block, over the components that read the input', eq(u.at(o, i, j), sum_(q, I(0), g.K, ite(lt(i, c.nin(q)), app('g', 'R', q, i, j), R(0)))))
@unit(P, targets=N + 'LogDeterminantInputGradImpl')
def Triangular_LogDeterminantInputGrad(u):
    f, this, g = tri(u, 'LogDeterminantInputGradImpl'); c = g.c
    p, o = u.view('pts', g.n, g.np), u.view('out', g.n, g.np); p0 = u.load(p.buf)
    c.on['LogDeterminantInputGradImpl'] = ([IN(p0)], G('lg'))
    i, j = u.int('i'), u.int('j'); u.assume(lt(i, g.n)); u.assume(lt(j, g.np))
    r = u.call(f, this, [p, o]); u.nothrow(r)
    q = fresh('q', 'I')
    u.post('sum of the component log-determinant gradients', eq(u.at(o, i, j), sum_(q, I(0), g.K, ite(lt(i, c.nin(q)), app('lg', 'R', q, i, j), R(0)))))
for meth in ('CoeffGradImpl', 'LogDeterminantCoeffGradImpl'):
    @unit(P, name='Triangular_' + meth, targets=N + meth)
    def _(u, meth=meth):
        f, this, g = tri(u, meth); c = g.c
        p, s, o = u.view('pts', g.n, g.np), u.view('sens', g.m, g.np), u.view('out', g.k, g.np); p0, s0 = u.load(p.buf), u.load(s.buf)
        sens = meth == 'CoeffGradImpl'
        c.on[meth] = ([IN(p0)] + ([BLK(s0, c.S)] if sens else []), G('cg', c.Q))
        i, j = u.int('i'), u.int('j'); u.assume(lt(i, g.k)); u.assume(lt(j, g.np))
        cover(u, g, c.Q, c.nco, i)
        r = u.call(f, this, [p] + ([s] if sens else []) + [o]); u.nothrow(r)
        u.post('coefficient row i belongs to the component owning coefficient i', eq(u.at(o, i, j), app('cg', 'R', i, j)))
for cf in (False, True):
    @unit(P, name='Triangular_constructor' + (' (moving coefficients)' if cf else ''), targets=N + 'TriangularMap')
    def _(u, cf=cf):
        f = u.fn(N + 'TriangularMap', pred=lambda f: len(f['ps']) == 2 and 'body' in f); this = u.obj(f)
        K = u.int('K', 1); c = Comps(u, K, u.int('np'))
        q = fresh('q', 'I'); u.assume(all_(q, I(0), K, and_(le(c.nin(q), I(2**30)), le(c.nout(q), I(2**30)))))
        if cf:
            c.coeffs(); u.prefix_sums(c.nco, K, 'coefficient counts'); u.assume(le(c.Q(K), I(2**30)))
            unset = any_(q, I(0), K, not_(c.isset(q)))
        bad = or_(any_(q, I(0), K, gt(c.nout(q), c.nin(q))), any_(q, I(1), K, ne(c.nin(q), add(c.nin(sub(q, I(1))), c.nout(q)))))
        r = u.call(f, this, [c.vec, B(cf)])
        u.throws_iff(r, or_(bad, unset) if cf else bad, 'raises exactly when the block sizes do not chain%s' % (' or a component has no coefficients' if cf else ''))
        F = u.load(this).f
        u.post('sizes are the totals of the components', and_(eq(F['outputDim'], c.S(K)), eq(F['numCoeffs'], c.Q(K)), eq(F['inputDim'], c.nin(sub(K, I(1))))))
        ch = lambda k: imp(lt(k, K), eq(c.nin(k), add(c.nin(I(0)), c.S(k), c.nout(k), neg(c.nout(I(0))))))
        u.induct('component inputs chain', K, ch, hyps=[not_(bad)])
        k = u.int('k')
        u.lemma('last component', eq(c.S(K), add(c.S(sub(K, I(1))), c.nout(sub(K, I(1))))))
        u.post('class invariant: component k reads the leading extra + S(k+1) inputs', eq(c.nin(k), add(F['inputDim'], neg(F['outputDim']), c.S(k), c.nout(k))), hyps=[lt(k, K), imp(not_(bad), and_(ch(k), ch(sub(K, I(1)))))])
        u.post('components kept', eq(F['comps_'].n, K))
