"""C01: multi-indices read back what was stored."""
from unit import *
from spec_mi import *
P = 'C01'; TU = 'C01'
M = N + 'MultiIndex::'
@unit(P, name='Get', targets=M + 'Get')
def _(u):
    f = u.fn(M + 'Get'); this = u.obj(f); D = mi(u, this, 'a'); i = u.int('ind')
    r = u.call(f, this, [i]); u.throws_iff(r, ge(i, D.n), 'raises exactly outside the length'); u.post('the entry', eq(r.ret, D.v(i)), hyps=[lt(i, D.n)])
@unit(P, name='NumNz', targets=(M + 'NumNz', M + 'Sum', M + 'Max', M + 'Length'))
def _(u):
    f = u.fn(M + 'NumNz'); this = u.obj(f); D = mi(u, this, 'a')
    r = u.call(f, this, []); u.nothrow(r); u.post('the number of nonzero entries', eq(r.ret, D.count()))
    r = u.call(u.fn(M + 'Sum'), this, []); u.nothrow(r); u.post('the sum of the entries', eq(r.ret, D.total()))
    r = u.call(u.fn(M + 'Length'), this, []); u.nothrow(r); u.post('the length', eq(r.ret, D.n))
    r = u.call(u.fn(M + 'Max'), this, []); u.nothrow(r); p = fresh('p', 'I')
    u.post('bounds every entry', all_(p, I(0), D.n, le(D.v(p), r.ret)))
    u.post('is attained, or zero when there are only zeros', or_(and_(eq(r.ret, I(0)), eq(D.count(), I(0))), any_(p, I(0), D.n, eq(D.v(p), r.ret))))
@unit(P, name='Vector', targets=M + 'Vector')
def _(u):
    f = u.fn(M + 'Vector'); this = u.obj(f); D = mi(u, this, 'a'); i = u.int('i')
    r = u.call(f, this, []); u.nothrow(r); v = r.ret
    u.post('as long as the multi-index', eq(v.n, D.n)); u.post('every entry in its place', eq(unlift(v.e, i), D.v(i)), hyps=[lt(i, D.n), D.stored(i)])

def upd(D, u, i, x):
    E = Dense(u, D.n, lambda p: ite(eq(p, i), x, D.v(p)), 'after the write', C=lambda p: add(D.C(p), ite(gt(p, i), sub(nz(x), nz(D.v(i))), I(0))))
    u.induct('totals after the write', None, lambda p: eq(E.total(p), add(D.total(p), ite(gt(p, i), sub(x, D.v(i)), I(0)))))
    return E
for case in ('over a nonzero entry', 'over a zero entry'):
  for z in ('zero', 'nonzero'):
    @unit(P, name='Set (%s, %s)' % (z, case), targets=M + 'Set')
    def _(u, case=case, z=z):
        f = u.fn(M + 'Set'); this = u.obj(f); D = mi(u, this, 'a'); i = u.int('ind'); x = u.int('x')
        u.assume(eq(x, I(0)) if z == 'zero' else gt(x, I(0))); u.assume(imp(lt(i, D.n), gt(D.v(i), I(0)) if 'nonzero' in case else eq(D.v(i), I(0))))
        u.assume(imp(lt(i, D.n), D.stored(i)))
        E = upd(D, u, i, x); u.assume(and_(E.defn(D.n), E.defn(i))); u.ex.decide_ms = 3000; lower_bound(u, D); pre = u.fields(this)
        r = u.call(f, this, [i, x]); u.throws_iff(r, ge(i, D.n), 'raises exactly outside the length')
        for ts, loc in r.throws:
            for nm, t in (('length', pre['length']), ('maxValue', pre['maxValue'])): u.post('nothing changes when raising', eq(u.load(this, ts).f[nm], t), st=ts)
        ok = [lt(i, D.n)]; F = u.load(this, r.st).f
        for nm, g in E.rep(F)[:5]: u.lemma(nm, g, hyps=ok + list(r.st.pc))
        E.totals(F, hyps=ok + list(r.st.pc))
        E.attained(F, hyps=ok + list(r.st.pc))
        for nm, g in E.rep(F)[5:]: u.post(nm, g, hyps=ok)
        u.post('reports whether an existing nonzero entry was overwritten', eq(r.ret, gt(D.v(i), I(0))), hyps=ok)

def appended(u, D):
    """candidate facts about arrays to which the positions and values of the nonzero entries are appended"""
    def inv(ex, base, s0, k, un):
        q, p, m = fresh('q', 'I'), fresh('p', 'I'), fresh('m', 'I'); ar = [L for L in un if L.ss == ['I'] and L.rs == 'I']
        out = [eq(sum_(q, I(0), k, nz(D.v(q))), D.C(k)), ge(D.C(k), I(0))]
        for L in ar:
            at = lambda t: lapp(L.hav, t)
            out += [all_(p, I(0), k, imp(gt(D.v(p), I(0)), eq(at(D.C(p)), p))), all_(p, I(0), k, imp(gt(D.v(p), I(0)), eq(at(D.C(p)), D.v(p)))),
                    all_(m, I(0), D.C(k), and_(ge(at(m), I(0)), lt(at(m), k), eq(D.C(at(m)), m))), all_(m, I(0), D.C(k), gt(at(m), I(0)))]
            out += [all_(m, I(0), D.C(k), eq(at(m), D.v(lapp(L2.hav, m)))) for L2 in ar if L2 is not L]
        return out
    u.ex.invs.append(inv)
def built(u, D, this, r):
    F = u.load(this, r.st).f; H = list(r.st.pc)
    if hasattr(D, 'count_of'):
        m = fresh('m', 'I'); w = unlift(F['nzInds'].e, m)
        u.lemma_all('every stored position holds a nonzero entry', m, I(0), D.C(D.n), and_(ge(w, I(0)), lt(w, D.n), gt(D.v(w), I(0)), eq(D.C(w), m)), facts=[D.count_of(w), D.mono(w, D.n), D.onto(m), D.count_of(D.sel(m))], hyps=H)
        u.lemma_all('every stored value is that of its position', m, I(0), D.C(D.n), eq(unlift(F['nzVals'].e, m), D.v(w)), hyps=H)
    for nm, g in D.rep(F)[:5]: u.lemma(nm, g, hyps=H)
    D.totals(F, hyps=H); D.attained(F, hyps=H)
    for nm, g in D.rep(F)[5:]: u.post(nm, g)
def source(u, n, v, name='full'):
    D = Dense(u, n, v, name); u.assume(D.nonneg()); D.ranks(); u.assume(le(n, I(2**30))); q, p = fresh('q', 'I'), fresh('p', 'I')
    u.induct('ranks are counts', None, lambda p: imp(le(p, n), eq(sum_(q, I(0), p, nz(v(q))), D.C(p))), facts=[lambda p: imp(and_(ge(p, I(0)), lt(p, n)), D.rec(p))])
    S = lambda p: sum_(q, I(0), p, nz(v(q))); t, m = fresh('t', 'I'), fresh('m', 'I'); D.count_of = lambda p: imp(and_(ge(p, I(0)), le(p, n)), eq(S(p), D.C(p)))
    sel = lambda m: first_(t, I(0), n, gt(D.C(add(t, I(1))), m)); D.sel = sel; D.onto = lambda m: imp(and_(ge(m, I(0)), lt(m, D.C(n))), and_(ge(sel(m), I(0)), lt(sel(m), n), gt(v(sel(m)), I(0)), eq(D.C(sel(m)), m)))
    u.lemma_all('every rank is the rank of a nonzero entry', m, I(0), D.C(n), D.onto(m), facts=[imp(and_(ge(x, I(0)), lt(x, n)), D.rec(x)) for x in (sel(m), sub(n, I(1)), sub(sel(m), I(1)))])
    u.assume(D.mono(n, n)); u.assume(eq(sum_(q, I(0), n, nz(v(q))), D.C(n)))
    u.lemma_all('ranks of nonzero entries are below the count (%s)' % D.name, p, I(0), n, imp(gt(D.v(p), I(0)), lt(D.C(p), D.C(n))), facts=[D.mono(p, n)])
    return D
kinds = lambda f, u: [u.prog.unref(p['t']).get('tn') or u.prog.unref(p['t'])['k'] for p in f['ps']]
@unit(P, name='constant', targets=M + 'MultiIndex')
def _(u):
    f = u.fn(M + 'MultiIndex', pred=lambda f: kinds(f, u) == ['int', 'int'])
    this = u.obj(f); n = u.int('length'); x = u.int('value')
    D = Dense(u, n, lambda p: x, 'full'); u.assume(D.nonneg()); D.ranks(); u.assume(le(n, I(2**30)))
    u.induct('ranks of a constant', None, lambda p: imp(le(p, n), eq(D.C(p), ite(gt(x, I(0)), p, I(0)))), facts=[lambda p: imp(and_(ge(p, I(0)), lt(p, n)), D.rec(p))])
    u.assume(eq(D.C(n), ite(gt(x, I(0)), n, I(0))))
    r = u.call(f, this, [n, x]); u.nothrow(r); built(u, D, this, r)
@unit(P, name='from dense memory', targets=M + 'MultiIndex')
def _(u):
    f = u.fn(M + 'MultiIndex', pred=lambda f: kinds(f, u) == ['ptr', 'int'])
    this = u.obj(f); n = u.int('length'); a = u.array('full', 'I', n); D = source(u, n, lambda p: app('full', 'I', p)); appended(u, D)
    r = u.call(f, this, [a, n]); u.nothrow(r); built(u, D, this, r)
@unit(P, name='from a vector', targets=M + 'MultiIndex')
def _(u):
    f = u.fn(M + 'MultiIndex', pred=lambda f: kinds(f, u) == ['std::vector'])
    this = u.obj(f); n = u.int('length'); D = source(u, n, lambda p: app('full', 'I', p)); appended(u, D)
    r = u.call(f, this, [u.ref(u.vec('full', n))]); u.nothrow(r); built(u, D, this, r)
@unit(P, name='from an initialiser list', targets=M + 'MultiIndex')
def _(u):
    f = u.fn(M + 'MultiIndex', pred=lambda f: kinds(f, u) == ['std::initializer_list'])
    this = u.obj(f); n = u.int('length'); D = source(u, n, lambda p: app('full', 'I', p)); appended(u, D)
    r = u.call(f, this, [u.ref(u.vec('full', n))]); u.nothrow(r); built(u, D, this, r)
@unit(P, name='empty', targets=M + 'MultiIndex')
def _(u):
    f = u.fn(M + 'MultiIndex', pred=lambda f: kinds(f, u) == [])
    this = u.obj(f); r = u.call(f, this, []); u.nothrow(r); F = u.load(this, r.st).f
    u.post('no entries', and_(*[eq(t, I(0)) for t in (F['length'], F['maxValue'], F['totalOrder'], F['nzInds'].n, F['nzVals'].n)]))
@unit(P, name='AnyBounded', targets=M + 'AnyBounded')
def _(u):
    f = u.fn(M + 'AnyBounded'); this = u.obj(f); D = mi(u, this, 'a'); other = u.obj(f['cls'], 'b'); E = mi(u, other, 'b'); i = fresh('i', 'I')
    get(u, {this.root: D, other.root: E})
    r = u.call(f, this, [other]); u.throws_iff(r, gt(D.n, E.n), 'raises exactly when the bound is shorter')
    u.post('reports whether some entry reaches its bound', eq(r.ret, any_(i, I(0), D.n, ge(D.v(i), E.v(i)))))
