"""C22: adaptive training grows the map only with admissible terms within its limits."""
from unit import *
from spec_set import *
P = 'C22'; TU = 'C22'
def aabs(x): return ite(ge(x, R(0)), x, neg(x))
def blocks(u):
    """D sets; the terms that may be added to set o are the entries i of its list, stored at idx(o,i); the gradient is laid out block after block"""
    D = u.int('D', 1); u.assume(le(D, I(2**20))); n = lambda o: app('n', 'I', o); idx = lambda o, i: app('idx', 'I', o, i); size = lambda o: app('size', 'I', o)
    o, i = fresh('o', 'I'), fresh('i', 'I')
    u.assume(all_(o, I(0), D, and_(between(I(0), n(o), I(2**30)), between(I(0), size(o), I(2**30)), all_(i, I(0), n(o), between(I(0), idx(o, i), size(o))))))
    S = u.prefix_sums(size, D, 'the sizes of the sets'); u.assume(le(S(D), I(2**30)))
    w, x = fresh('w', 'I'), fresh('x', 'I'); rm = Vec(D, Vec(lam(w, n(w)), lam(w, lam(x, idx(w, x)))))
    return D, n, idx, size, S, rm
@unit(P, name='findMaxGrad', targets='findMaxGrad', timeout=20000)
def _(u):
    f = u.fn('findMaxGrad'); D, n, idx, size, S, rm = blocks(u); N_ = S(D)
    grad = u.view('grad', N_); g = lambda o, i: aabs(u.at(grad, add(S(o), idx(o, i))))
    mem = lambda o, a: app('member', 'B', o, a); q, j = fresh('q', 'I'), fresh('j', 'I'); u.assume(all_(q, I(0), D, all_(j, I(0), n(q), mem(q, idx(q, j)))))   # any predicate that holds of the listed terms
    w = fresh('w', 'I'); sets = Vec(D, Rec(N + 'MultiIndexSet', {'$size': lam(w, size(w))}))
    u.contract(M + 'Size', lambda ex, st, c: ex.val(st, c.obj).f['$size'])
    best, block = u.ref(u.int('i0', None), 'maxIdx'), u.ref(u.int('b0', None), 'maxIdxBlock')
    def inv(ex, base, s0, k, un):
        ks = ex.loopks; o = ks[0]; i = ks[1] if len(ks) > 1 else I(0); q, j = fresh('q', 'I'), fresh('j', 'I'); out = []
        Is = [L.hav for L in un if not L.ss and L.rs == 'I']; Rs = [L.hav for L in un if not L.ss and L.rs == 'R']; Bs = [L.hav for L in un if not L.ss and L.rs == 'B']
        seen = or_(any_(q, I(0), o, gt(n(q), I(0))), gt(i, I(0)))
        for r in Rs:
            for fd in Bs + [not_(b) for b in Bs] + [seen, ge(r, R(0))]:
                out += [iff(fd, seen)]
                out += [all_(q, I(0), o, all_(j, I(0), n(q), and_(fd, le(g(q, j), r)))), all_(j, I(0), i, and_(fd, le(g(o, j), r)))]
                for a in Is:
                    for b in Is:
                        if a is not b: out += [imp(fd, and_(ge(b, I(0)), lt(b, D), mem(b, a))), imp(fd, eq(r, aabs(u.at(grad, add(S(b), a)))))]
        return out
    u.ex.invs.append(inv); u.ex.plain_invs = True
    r = u.call(f, None, [grad, rm, sets, best, block]); u.nothrow(r)
    q, j = fresh('q', 'I'), fresh('j', 'I'); a, b = u.load(best, r.st), u.load(block, r.st); o, i = u.int('o'), u.int('i')
    u.post('reports whether some term may be added', iff(r.ret, any_(q, I(0), D, gt(n(q), I(0)))))
    u.post('the chosen term may be added to the chosen set', and_(between(I(0), b, D), mem(b, a)), hyps=[r.ret])
    u.post('no other term has a larger gradient', le(g(o, i), aabs(u.at(grad, add(S(b), a)))), hyps=[lt(o, D), lt(i, n(o))])
    u.post('the lists and the gradient are unchanged', B(u.load(grad.buf, r.st) is u.load(grad.buf)) )
@unit(P, name='maxDegreeRMFilter', targets='maxDegreeRMFilter', timeout=20000)
def _(u):
    f = u.fn('maxDegreeRMFilter'); D, n, idx, size, S, rm = blocks(u); bnd = lambda o, a: app('bounded', 'B', o, a)
    w = fresh('w', 'I'); sets = Vec(D, Rec(N + 'MultiIndexSet', {'$set': lam(w, w), '$size': lam(w, size(w))})); x = fresh('x', 'I')
    u.contract(M + 'FilterBounded', lambda ex, st, c: Vec(ex.val(st, c.obj).f['$size'], lam(x, bnd(ex.val(st, c.obj).f['$set'], x))))
    keep = lambda o, i: not_(bnd(o, idx(o, i))); q = fresh('q', 'I'); C = lambda o, k: sum_(q, I(0), k, ite(keep(o, q), I(1), I(0)))
    o = u.int('o'); u.assume(lt(o, D))
    def inv(ex, base, s0, k, un):
        ks = ex.loopks; out = []; x, i, q = fresh('x', 'I'), fresh('i', 'I'), fresh('q', 'I'); o = ks[0]
        if len(ks) == 1:
            for L in un:
                if L.rs == 'I' and len(L.ss) == 1: out += [all_(q, I(0), o, eq(lapp(L.hav, q), C(q, n(q)))), all_(q, o, D, eq(lapp(L.hav, q), n(q)))]
                if L.rs == 'I' and len(L.ss) == 2:
                    cur = lambda q, j: lapp(lapp(L.hav, q), j)
                    out += [all_(q, o, D, all_(x, I(0), n(q), eq(cur(q, x), idx(q, x)))), all_(q, I(0), o, all_(i, I(0), n(q), imp(keep(q, i), eq(cur(q, C(q, i)), idx(q, i)))))]
            return out
        c = C(o, k); out += [and_(ge(c, I(0)), le(c, k)), le(k, n(o))]
        for L in un:
            if not L.ss and L.rs == 'I': out += [eq(L.hav, c), eq(L.hav, sub(n(o), sub(k, c)))]
            if L.rs != 'I' or not L.ss: continue
            if len(L.ss) == 1:
                out.append(all_(i, I(0), k, imp(keep(o, i), and_(eq(lapp(L.hav, C(o, i)), idx(o, i)), lt(C(o, i), c), ge(C(o, i), I(0))))))     # a list built anew
                out.append(eq(lapp(L.hav, o), sub(n(o), sub(k, c)))); out.append(forall(q, or_(eq(q, o), eq(lapp(L.hav, q), lapp(L.base, q)))))
            if len(L.ss) == 2:
                cur = lambda j: lapp(lapp(L.hav, o), j)
                out += [all_(x, c, sub(n(o), sub(k, c)), eq(cur(x), idx(o, add(sub(x, c), k)))), all_(i, I(0), k, imp(keep(o, i), and_(eq(cur(C(o, i)), idx(o, i)), lt(C(o, i), c), ge(C(o, i), I(0)))))]
                out.append(forall(q, forall(x, or_(eq(q, o), eq(lapp(lapp(L.hav, q), x), lapp(lapp(L.base, q), x))))))
        return out
    u.ex.invs.append(inv); u.ex.plain_invs = True
    u.ex.plain_forms = True; mx = Opq('maxDegrees')
    rr = u.ref(rm, 'rm'); r = u.call(f, None, [sets, mx, rr]); u.nothrow(r)
    R = u.load(rr, r.st); i, b = u.int('i'), u.int('b'); l = unlift(R.e, o); H = []; k = fresh('k', 'I')
    u.post('as many terms remain as there are below the maximum degrees', eq(l.n, C(o, n(o))), hyps=H)
    u.post('every term below the maximum degrees remains, in its order', eq(unlift(l.e, C(o, i)), idx(o, i)), hyps=H + [lt(i, n(o)), keep(o, i)])
    u.induct('every remaining place holds such a term', None, lambda m: imp(and_(lt(o, D), le(m, n(o)), lt(b, C(o, m))), any_(k, I(0), m, and_(keep(o, k), eq(C(o, k), b)))))(n(o))
    u.post('only terms below the maximum degrees remain', or_(not_(lt(o, D)), ge(b, l.n), any_(k, I(0), n(o), and_(keep(o, k), eq(C(o, k), b)))))
    u.post('the number of sets is unchanged', eq(R.n, D))
@unit(P, name='FilterBounded', targets=M + 'FilterBounded')
def _(u):
    f = u.fn(M + 'FilterBounded'); this, S = the_set(u, f, edges=False); bd = lambda x: app('bounded', 'B', x)
    u.contract(N + 'MultiIndex::AnyBounded', lambda ex, st, c: bd(ex.val(st, c.obj).f['$id']))
    o = u.call(f, this, [Opq('bound')]); u.nothrow(o); a = u.int('a')
    u.post('one answer per term of the set', eq(o.ret.n, S.A)); u.post('the answer of the a-th term', iff(unlift(o.ret.e, a), bd(S.id(S.a2g(a)))), hyps=[lt(a, S.A)])
@unit(P, name='AnyBounded', targets=N + 'MultiIndex::AnyBounded')
def _(u):
    f = u.fn(N + 'MultiIndex::AnyBounded'); this = u.obj(f); b = u.obj(f, 'bound'); n, m = u.int('n'), u.int('m'); u.setf(this, length=n); u.setf(b, length=m)
    v, w = lambda i: app('entry', 'I', i), lambda i: app('bound', 'I', i)
    def get(ex, st, c):
        L = ex.val(st, c.obj).f['length']; i = ex.val(st, c.args[0]); ex.oblige('precondition', st, between(I(0), i, L), c.loc, 'the coordinate is within the length'); return v(i) if c.obj.root == this.root else w(i)
    u.contract(N + 'MultiIndex::Get', get); i = fresh('i', 'I')
    o = u.call(f, this, [b]); u.throws_iff(o, gt(n, m), 'raises exactly when the bound is shorter')
    u.post('some degree meets or exceeds its bound', iff(o.ret, any_(i, I(0), n, ge(v(i), w(i)))))
