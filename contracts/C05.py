"""C05: fixed index sets hold exactly the multi-indices they were built from."""
from unit import *
from spec_mi import *
from spec_common import rext
P = 'C05'; TU = 'C05'
F = N + 'FixedMultiIndexSet::'
nargs = lambda n: dict(pred=lambda f: len(f['ps']) == n and f['q'].endswith('::FixedMultiIndexSet'))
def maxima(u, dims, orders):
    """candidate facts about per-coordinate running maxima"""
    def inv(ex, base, s0, k, un):
        q, d = fresh('q', 'I'), fresh('d', 'I'); out = []
        for L in un:
            if L.ss == ['I'] and L.rs == 'I':
                at = lambda t: lapp(L.hav, t)
                out += [all_(d, None, None, ge(at(d), I(0))), all_(q, I(0), k, le(orders(q), at(dims(q)))), all_(d, None, None, or_(eq(at(d), I(0)), any_(q, I(0), k, and_(eq(dims(q), d), eq(orders(q), at(d))))))]
        return out
    u.ex.invs.append(inv)
def check_max(u, o, n, dim, md, dims, orders):
    q, d = u.int('q'), u.int('d'); k = fresh('k', 'I')
    u.post('one maximum per coordinate', eq(md.ext[0], dim))
    u.post('the maximum degree bounds every entry', le(orders(q), u.at(md, dims(q), st=o.st)), hyps=[lt(q, n)])
    u.post('the maximum degree is attained, or zero', or_(eq(u.at(md, d, st=o.st), I(0)), any_(k, I(0), n, and_(eq(dims(k), d), eq(orders(k), u.at(md, d, st=o.st))))), hyps=[lt(d, dim)])
@unit(P, name='from explicit nonzero entries', targets=F + 'FixedMultiIndexSet')
def _(u):
    f = u.fn(F + 'FixedMultiIndexSet', **nargs(4)); this = u.obj(f); dim = u.int('dim', 1); u.assume(le(dim, I(2**30))); n, T = u.int('nnz'), u.int('terms')
    st, di, od = u.view('starts', add(T, I(1)), sort='I'), u.view('dims', n, sort='I'), u.view('orders', n, sort='I'); q = fresh('q', 'I')
    dims, orders = lambda i: u.at(di, i), lambda i: u.at(od, i)
    u.assume(all_(q, I(0), n, and_(ge(dims(q), I(0)), lt(dims(q), dim), ge(orders(q), I(0))))); maxima(u, dims, orders)
    o = u.call(f, this, [dim, st, di, od]); u.nothrow(o); V = u.load(this, o.st).f
    u.post('the data is kept', and_(B(V['nzStarts'].buf == st.buf), B(V['nzDims'].buf == di.buf), B(V['nzOrders'].buf == od.buf), eq(V['dim'], dim), V['isCompressed']))
    check_max(u, o, n, dim, V['maxDegrees'], dims, orders)
    s = u.call(u.fn(F + 'Size'), this, [], st=o.st); u.post('the size is the number of terms', eq(s.ret, T))
@unit(P, name='from dense data', targets=(F + 'FixedMultiIndexSet', F + 'SetupTerms', F + 'CalculateMaxDegrees'))
def _(u):
    f = u.fn(F + 'FixedMultiIndexSet', pred=lambda f: len(f['ps']) == 2 and u.prog.unref(f['ps'][1]['t'])['k'] != 'int'); this = u.obj(f); dim = u.int('dim', 1); u.assume(le(dim, I(2**30))); T = u.int('terms')
    n = mul(dim, T); od = u.view('orders', n, sort='I'); orders = lambda i: u.at(od, i); q = fresh('q', 'I'); u.assume(all_(q, I(0), n, ge(orders(q), I(0))))
    dims = lambda i: TM.imod(i, dim); u.lemma('dividing the number of entries by the dimension', eq(idiv(n, dim), T)); maxima(u, dims, orders)
    o = u.call(f, this, [dim, od]); u.nothrow(o); V = u.load(this, o.st).f
    i = u.int('i')
    u.post('entries are not marked compressed', and_(not_(V['isCompressed']), eq(V['dim'], dim)))
    u.post('term i starts at i*dim', eq(u.at(V['nzStarts'], i, st=o.st), mul(i, dim)), hyps=[lt(i, T)])
    check_max(u, o, n, dim, V['maxDegrees'], lambda k: u.at(V['nzDims'], k, st=o.st), orders)
    s = u.call(u.fn(F + 'Size'), this, [], st=o.st); u.post('the size is the number of terms', eq(s.ret, T))
    t, d = u.int('t'), u.int('d'); u.assume(and_(lt(t, T), lt(d, dim)))
    r = u.call(u.fn(F + 'IndexToMulti'), this, [t], st=o.st); u.nothrow(r); u.post('reading back term t', and_(eq(r.ret.n, dim), eq(unlift(r.ret.e, d), orders(add(mul(dim, t), d)))))

def dense_set(u, this):
    dim = u.int('dim', 1); u.assume(le(dim, I(2**30))); T = u.int('terms'); V = u.fields(this)
    od = u.view('orders', mul(dim, T), sort='I'); orders = lambda i: u.at(od, i)
    u.setf(this, dim=dim, isCompressed=FALSE, nzOrders=od)
    u.lemma('dividing the number of entries by the dimension', eq(idiv(mul(dim, T), dim), T))
    q = fresh('q', 'I'); u.lemma_all('the entries of a term lie within the data', q, I(0), T, le(add(mul(q, dim), dim), mul(dim, T)))
    return dim, T, lambda t, d: orders(add(mul(dim, t), d))
def sparse_set(u, this):
    """compressed storage whose entries are positive and listed by increasing coordinate in every term; term t is the dense vector V(t, .)
    whose nonzero entries are counted by C(t, .)"""
    dim = u.int('dim', 1); u.assume(le(dim, I(2**30))); T, n = u.int('terms'), u.int('nnz')
    st, di, od = u.view('starts', add(T, I(1)), sort='I'), u.view('dims', n, sort='I'), u.view('orders', n, sort='I')
    u.setf(this, dim=dim, isCompressed=TRUE, nzStarts=st, nzDims=di, nzOrders=od)
    S, D, O = (lambda i: u.at(st, i)), (lambda i: u.at(di, i)), (lambda i: u.at(od, i)); t, i, j = fresh('t', 'I'), fresh('i', 'I'), fresh('j', 'I')
    u.assume(all_(t, I(0), T, and_(ge(S(t), I(0)), le(S(t), S(add(t, I(1)))), le(S(add(t, I(1))), n))))
    u.assume(all_(i, I(0), n, and_(ge(D(i), I(0)), lt(D(i), dim), gt(O(i), I(0)))))
    u.assume(all_(t, I(0), T, all_(i, S(t), S(add(t, I(1))), all_(j, S(t), i, lt(D(j), D(i))))))
    v = lambda t, d: app('term', 'I', t, d)
    return dim, T, S, D, O, v
def is_term(u, t, dim, S, D, O, v):
    """what term t means: its listed entries at their coordinates, zero elsewhere"""
    i, d = fresh('i', 'I'), fresh('d', 'I')
    u.assume(all_(i, S(t), S(add(t, I(1))), eq(v(t, D(i)), O(i)))); u.assume(all_(d, I(0), dim, or_(eq(v(t, d), I(0)), any_(i, S(t), S(add(t, I(1))), eq(D(i), d)))))
@unit(P, name='IndexToMulti (compressed)', targets=F + 'IndexToMulti')
def _(u):
    f = u.fn(F + 'IndexToMulti'); this = u.obj(f); dim, T, S, D, O, v = sparse_set(u, this); t = u.int('t'); u.assume(lt(t, T)); is_term(u, t, dim, S, D, O, v)
    r = u.call(f, this, [t]); u.nothrow(r); d = u.int('d')
    u.post('one entry per coordinate', eq(r.ret.n, dim)); u.post('the entries of the term', eq(unlift(r.ret.e, d), v(t, d)), hyps=[lt(d, dim)])
@unit(P, name='IndexToMulti (dense)', targets=F + 'IndexToMulti')
def _(u):
    f = u.fn(F + 'IndexToMulti'); this = u.obj(f); dim, T, v = dense_set(u, this); t = u.int('t'); u.assume(lt(t, T))
    r = u.call(f, this, [t]); u.nothrow(r); d = u.int('d')
    u.post('one entry per coordinate', eq(r.ret.n, dim)); u.post('the entries of the term', eq(unlift(r.ret.e, d), v(t, d)), hyps=[lt(d, dim)])
@unit(P, name='MultiToIndex (dense)', targets=F + 'MultiToIndex')
def _(u):
    f = u.fn(F + 'MultiToIndex'); this = u.obj(f); dim, T, v = dense_set(u, this); m = u.vec('multi', dim); t, d = u.int('t'), u.int('d')
    r = u.call(f, this, [u.ref(m)]); u.nothrow(r); e = fresh('d', 'I')
    u.post('absent or the number of a term', or_(eq(r.ret, I(-1)), and_(ge(r.ret, I(0)), lt(r.ret, T))))
    u.post('the reported term is the multi-index', eq(v(r.ret, d), unlift(m.e, d)), hyps=[ge(r.ret, I(0)), lt(d, dim)])
    u.post('reported absent only when no term is the multi-index', any_(e, I(0), dim, ne(v(t, e), unlift(m.e, e))), hyps=[eq(r.ret, I(-1)), lt(t, T)])
@unit(P, name='MultiToIndex (compressed)', targets=F + 'MultiToIndex')
def _(u):
    f = u.fn(F + 'MultiToIndex'); this = u.obj(f); dim, T, S, D, O, v = sparse_set(u, this); m = u.vec('multi', dim); mv = lambda d: unlift(m.e, d)
    t = u.int('t'); u.assume(lt(t, T)); p = fresh('p', 'I')
    # t: an arbitrary term as a dense vector, with the ranks of its entries; the searched multi-index likewise
    X = Dense(u, dim, lambda d: v(t, d), 'term t'); u.assume(X.nonneg()); X.ranks(); A = Dense(u, dim, mv, 'multi'); u.assume(A.nonneg()); A.ranks()
    q = fresh('q', 'I'); cnt = lambda D_, p: sum_(q, I(0), p, nz(D_.v(q)))
    u.induct('ranks are counts', None, lambda p: imp(le(p, dim), eq(cnt(A, p), A.C(p))), facts=[lambda p: imp(and_(ge(p, I(0)), lt(p, dim)), A.rec(p))]); u.assume(eq(cnt(A, dim), A.C(dim)))
    i = fresh('i', 'I'); n = X.C(dim); at = lambda i: add(S(t), i)
    u.assume(eq(sub(S(add(t, I(1))), S(t)), n)); u.assume(all_(i, I(0), n, and_(eq(X.C(D(at(i))), i), eq(X.v(D(at(i))), O(at(i)))))); u.assume(all_(p, I(0), dim, imp(gt(X.v(p), I(0)), eq(D(at(X.C(p))), p))))
    same = all_(p, I(0), dim, eq(X.v(p), mv(p))); e = fresh('e', 'I')
    # equal numbers of nonzero entries and agreement at the entries of t imply equality
    agree = and_(eq(A.C(dim), n), all_(i, I(0), n, eq(O(at(i)), mv(D(at(i))))))
    a, d = fresh('a', 'I'), fresh('d', 'I')
    u.lemma_all('entries of the term are listed', p, I(0), dim, imp(gt(X.v(p), I(0)), and_(ge(X.C(p), I(0)), lt(X.C(p), n))), facts=[X.mono(p, dim)])
    u.lemma_all('the searched multi-index agrees where the term is nonzero', p, I(0), dim, imp(gt(X.v(p), I(0)), eq(mv(p), X.v(p))), hyps=[agree])
    gap = lambda p: sub(A.C(p), X.C(p))
    o = lambda d: imp(and_(agree, le(add(a, d), dim)), ge(gap(add(a, d)), gap(a)))
    b = add(a, d); step = imp(lt(b, dim), and_(X.rec(b), A.rec(b), ge(X.v(b), I(0)), imp(gt(X.v(b), I(0)), eq(mv(b), X.v(b)))))
    u.lemma_all('step facts', p, I(0), dim, imp(agree, and_(X.rec(p), A.rec(p), ge(X.v(p), I(0)), imp(gt(X.v(p), I(0)), eq(mv(p), X.v(p))))))
    for nm, H, G in (('base', [ge(a, I(0))], o(I(0))), ('step', [ge(a, I(0)), ge(d, I(0)), o(d), imp(agree, step)], o(add(d, I(1))))): u.ex.obls.append(Obl('lemma', 'the counts never drift back (%s)' % nm, '', list(u.ex.hyps) + H, G, u.name))
    mono = lambda x, y: imp(and_(agree, ge(x, I(0)), le(x, y), le(y, dim)), ge(gap(y), gap(x)))
    u.lemma_all('agreement means equality', p, I(0), dim, eq(X.v(p), mv(p)), hyps=[agree], facts=[mono(I(0), p), mono(p, add(p, I(1))), mono(add(p, I(1)), dim), imp(agree, and_(X.rec(p), A.rec(p))), eq(X.C(I(0)), I(0)), eq(A.C(I(0)), I(0))])
    u.induct('equality means equal counts', None, lambda p: imp(and_(same, le(p, dim)), eq(A.C(p), X.C(p))), facts=[lambda p: imp(and_(ge(p, I(0)), lt(p, dim)), and_(X.rec(p), A.rec(p)))]); u.assume(imp(same, eq(A.C(dim), X.C(dim))))
    r = u.call(f, this, [u.ref(m)]); u.nothrow(r); e = u.int('e')
    u.post('absent or the number of a term', or_(eq(r.ret, I(-1)), and_(ge(r.ret, I(0)), lt(r.ret, T))))
    u.post('the reported term is the multi-index', eq(X.v(e), mv(e)), hyps=[eq(r.ret, t), lt(e, dim)])
    u.post('reported absent only when no term is the multi-index', not_(same), hyps=[eq(r.ret, I(-1))])

# ---- total order sets: k coordinates, total degree at most m: T terms with Z nonzero entries in all
T_ = lambda k, m: app('terms', 'I', k, m); Z_ = lambda k, m: app('entries', 'I', k, m)
def counts(u, k, m):
    """definition of the counts at (k, m), k >= 1, m >= 0"""
    q = fresh('q', 'I'); k1 = sub(k, I(1))
    return and_(imp(eq(k, I(1)), and_(eq(T_(k, m), add(m, I(1))), eq(Z_(k, m), m))),
                imp(gt(k, I(1)), and_(eq(T_(k, m), sum_(q, I(0), add(m, I(1)), T_(k1, sub(m, q)))), eq(Z_(k, m), sum_(q, I(0), add(m, I(1)), add(Z_(k1, sub(m, q)), ite(gt(q, I(0)), T_(k1, sub(m, q)), I(0))))))))
def nonneg(u):
    k, m = fresh('k', 'I'), fresh('m', 'I'); u.assume(all_(k, I(1), None, all_(m, I(0), None, and_(ge(T_(k, m), I(0)), ge(Z_(k, m), I(0))))))
@unit(P, name='the counts of a total order set are not negative', targets=F + 'TotalOrderSize')
def _(u):
    u.fn(F + 'TotalOrderSize'); m = u.int('m')
    o = lambda k: imp(ge(m, I(0)), and_(ge(T_(k, m), I(0)), ge(Z_(k, m), I(0)))); k = u.int('k', 1); q = fresh('q', 'I')
    u.post('one coordinate', and_(ge(T_(I(1), m), I(0)), ge(Z_(I(1), m), I(0))), hyps=[counts(u, I(1), m)])
    u.post('one more coordinate', and_(ge(T_(add(k, I(1)), m), I(0)), ge(Z_(add(k, I(1)), m), I(0))), hyps=[counts(u, add(k, I(1)), m), all_(q, I(0), None, and_(ge(T_(k, q), I(0)), ge(Z_(k, q), I(0))))])
def fixed_dim(u, f):
    this = u.obj(f); dim = u.int('dim', 1); u.assume(le(dim, I(2**30))); u.setf(this, dim=dim); return this, dim
@unit(P, name='TotalOrderSize', targets=F + 'TotalOrderSize')
def _(u):
    f = u.fn(F + 'TotalOrderSize'); this, dim = fixed_dim(u, f); m, c = u.int('maxOrder'), u.int('currDim'); u.assume(lt(c, dim)); u.assume(counts(u, sub(dim, c), m)); nonneg(u)
    def h(ex, st, cc):
        m2, c2 = ex.val(st, cc.args[0]), ex.val(st, cc.args[1])
        ex.oblige('precondition', st, and_(ge(m2, I(0)), lt(c, c2), lt(c2, dim)), cc.loc, 'the recursion moves to a later coordinate (termination)')
        return libmodel.pair_rec(T_(sub(dim, c2), m2), Z_(sub(dim, c2), m2))
    u.contract(F + 'TotalOrderSize', h)
    r = u.call(f, this, [m, c]); u.nothrow(r)
    u.post('the number of terms', eq(r.ret.f['first'], T_(sub(dim, c), m))); u.post('the number of nonzero entries', eq(r.ret.f['second'], Z_(sub(dim, c), m)))
