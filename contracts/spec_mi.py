"""Representation invariant of a multi-index: a dense vector v of non-negative integers stored as its nonzero positions
(increasing) and values, with the cached maximum and total."""
from unit import *
N = 'mpart::'
def nz(x): return ite(gt(x, I(0)), I(1), I(0))
class Dense:
    """ghost dense vector of length n with entries v(p), and the number C(p) of nonzero entries before p (defined by recursion;
    a given C is proved to satisfy the recursion)"""
    def __init__(self, u, n, v, name, C=None):
        self.u, self.n, self.v, self.name = u, n, v, name
        self.C = lambda p: app(name + '.rank', 'I', p)
        if C is not None: p = fresh('p', 'I'); u.assume(all_(p, None, None, eq(self.C(p), C(p)))); self.defn = lambda p: eq(self.C(p), C(p))
        p = fresh('p', 'I'); self.rec = lambda p: eq(self.C(add(p, I(1))), add(self.C(p), nz(v(p))))
        if C is None: u.assume(eq(self.C(I(0)), I(0))); u.assume(all_(p, I(0), n, self.rec(p)))
        else:
            u.lemma('no entries before the first (%s)' % name, eq(self.C(I(0)), I(0)), hyps=[self.defn(I(0))])
            u.lemma_all('ranks count the nonzero entries (%s)' % name, p, I(0), n, self.rec(p), facts=[self.defn(p), self.defn(add(p, I(1)))])
    def total(self, p=None):
        q = fresh('q', 'I'); return sum_(q, I(0), self.n if p is None else p, self.v(q))
    def count(self): return self.C(self.n)
    def nonneg(self):
        p = fresh('p', 'I'); return all_(p, I(0), self.n, ge(self.v(p), I(0)))
    def ranks(self):
        """0 <= C(p) <= p, and C is monotone and strictly grows over a nonzero entry (by induction)"""
        u, n, C, v = self.u, self.n, self.C, self.v; w = ' (%s)' % self.name; a, d = fresh('p', 'I'), fresh('d', 'I')
        u.induct('ranks are between zero and the position' + w, None, lambda p: imp(le(p, n), and_(ge(C(p), I(0)), le(C(p), p))), facts=[lambda p: imp(and_(ge(p, I(0)), lt(p, n)), self.rec(p))])
        o = lambda d: imp(le(add(a, d), n), and_(ge(C(add(a, d)), C(a)), imp(and_(gt(v(a), I(0)), gt(d, I(0))), gt(C(add(a, d)), C(a)))))
        self.u.ex.obls.append(Obl('lemma', 'ranks are monotone%s (base)' % w, '', list(u.ex.hyps) + [ge(a, I(0))], o(I(0)), u.name))
        self.u.ex.obls.append(Obl('lemma', 'ranks are monotone%s (step)' % w, '', list(u.ex.hyps) + [ge(a, I(0)), ge(d, I(0)), o(d), imp(lt(add(a, d), n), self.rec(add(a, d)))], o(add(d, I(1))), u.name))
        p, q = fresh('p', 'I'), fresh('q', 'I')
        self.mono = lambda x, y: imp(and_(ge(x, I(0)), le(x, y), le(y, n)), and_(ge(C(y), C(x)), imp(and_(gt(v(x), I(0)), lt(x, y)), gt(C(y), C(x)))))
        u.assume(all_(p, I(0), add(n, I(1)), all_(q, p, add(n, I(1)), self.mono(p, q))))
        return self
    def totals(self, F, hyps=()):
        """the sum of the stored values is the sum of the entries (by induction over the positions)"""
        u = self.u; val_ = F['nzVals'].e; m = fresh('m', 'I')
        T_ = lambda c: sum_(m, I(0), c, unlift(val_, m)); S = lambda p: T_(self.C(p))
        st = lambda p: imp(and_(ge(p, I(0)), lt(p, self.n)), and_(self.rec(p), ge(self.v(p), I(0)), ge(self.C(p), I(0)), imp(gt(self.v(p), I(0)), eq(unlift(val_, self.C(p)), self.v(p))),
            eq(T_(add(self.C(p), I(1))), add(T_(self.C(p)), unlift(val_, self.C(p))))))
        w = fresh('p', 'I'); u.lemma_all('stored values at their ranks (%s)' % self.name, w, I(0), self.n, st(w), hyps=hyps)
        u.induct('stored values add up to the entries (%s)' % self.name, None, lambda p: imp(le(p, self.n), eq(S(p), self.total(p))), hyps=hyps, facts=[st])
        u.assume(imp(and_(*hyps), eq(S(self.n), self.total(self.n))))
    def attained(self, F, hyps=()):
        """the cached maximum is one of the stored values, or there are none"""
        u = self.u; ind, val_ = F['nzInds'].e, F['nzVals'].e; m = fresh('m', 'I'); k = self.count(); M = F['maxValue']
        u.lemma('the maximum is a stored value or zero (%s)' % self.name, or_(eq(M, I(0)), any_(m, I(0), k, eq(unlift(val_, m), M))), hyps=hyps)
        u.lemma('the maximum is positive when there is an entry (%s)' % self.name, or_(eq(k, I(0)), gt(M, I(0))), hyps=hyps)
        p = fresh('p', 'I')
        u.lemma_all('a stored value equal to the maximum is an entry equal to it (%s)' % self.name, m, I(0), k, imp(eq(unlift(val_, m), M), any_(p, I(0), self.n, eq(self.v(p), M))), hyps=hyps)
    def rep(self, F, at=None):
        """the representation invariant, as a list of named goals over the fields of a multi-index"""
        ind, val_ = F['nzInds'], F['nzVals']; p, m = fresh('p', 'I'), fresh('m', 'I')
        gi = lambda t: unlift(ind.e, t) if ind.e is not None else I(0)
        gv = lambda t: unlift(val_.e, t) if val_.e is not None else I(0)
        return [('the length is that of the vector', eq(F['length'], self.n)),
                ('one stored position per nonzero entry', eq(ind.n, self.count())),
                ('one stored value per nonzero entry', eq(val_.n, self.count())),
                ('every nonzero entry is stored at its rank', all_(p, I(0), self.n, imp(gt(self.v(p), I(0)), and_(eq(gi(self.C(p)), p), eq(gv(self.C(p)), self.v(p)))))),
                ('every stored pair is a nonzero entry', all_(m, I(0), self.count(), and_(ge(gi(m), I(0)), lt(gi(m), self.n), eq(self.C(gi(m)), m), gt(gv(m), I(0)), eq(gv(m), self.v(gi(m)))))),
                ('the total is the sum of the entries', eq(F['totalOrder'], self.total())),
                ('the maximum bounds every entry', all_(p, I(0), self.n, le(self.v(p), F['maxValue']))),
                ('the maximum is attained or every entry is zero', or_(and_(eq(F['maxValue'], I(0)), eq(self.count(), I(0))), any_(p, I(0), self.n, eq(self.v(p), F['maxValue']))))]
def mi(u, ref, name, lo=0):
    """an arbitrary multi-index satisfying the representation invariant"""
    n = u.int(name + '.length', lo); u.assume(le(n, I(2**30)))
    D = Dense(u, n, lambda p: app(name + '.v', 'I', p), name); u.assume(D.nonneg()); D.ranks()
    k = D.count()
    u.setf(ref, length=n, nzInds=u.vec(name + '.ind', k), nzVals=u.vec(name + '.val', k), maxValue=u.int(name + '.max'), totalOrder=u.int(name + '.total'))
    F = u.fields(ref)
    for _, g in D.rep(F): u.assume(g)
    a, b = fresh('a', 'I'), fresh('b', 'I'); gi = lambda t: unlift(F['nzInds'].e, t)
    # stored positions are increasing (from the ranks and the monotone counts)
    s = lambda a, b: lt(gi(a), gi(b))
    H = [ge(a, I(0)), lt(a, b), lt(b, k)]
    u.ex.obls.append(Obl('lemma', 'stored positions increase (%s)' % name, '', list(u.ex.hyps) + H + [D.mono(gi(b), gi(a))], s(a, b), u.name))
    u.assume(all_(a, I(0), k, all_(b, add(a, I(1)), k, s(a, b))))
    D.stored = lambda p: imp(gt(D.v(p), I(0)), and_(lt(D.C(p), k), ge(D.C(p), I(0)), eq(gi(D.C(p)), p), eq(unlift(F['nzVals'].e, D.C(p)), D.v(p))))
    # a nonzero entry has a rank below the count; totals
    u.lemma_all('ranks of nonzero entries are below the count (%s)' % name, a, I(0), n, imp(gt(D.v(a), I(0)), lt(D.C(a), k)), facts=[D.mono(a, n)])
    return D
def get(u, objs):
    """the contract of Get proved in C01: the entry inside the length, an error outside"""
    def h(ex, st, c):
        D = objs[c.obj.root if not isinstance(c.obj, ObjPtr) else c.obj.ref.root]; i = ex.val(st, c.args[0]); ok = and_(ge(i, I(0)), lt(i, D.n))
        if ok is not TRUE and not ex.quick(st, ok, 1000):
            s2 = st.clone(); s2.assume(not_(ok))
            if not s2.dead(): c.fr.throws.append((s2, c.loc))
            st.assume(ok)
        return D.v(i)
    u.contract(N + 'MultiIndex::Get', h)
def lower_bound(u, D):
    """std::lower_bound on the stored positions returns the rank: the unique position separating smaller from not smaller (both facts are obligations)"""
    def h(ex, st, c):
        a, b, i = (ex.val(st, x) for x in c.args[:3]); arr = ex.load(st, a.base); k, q = fresh('k', 'I'), fresh('q', 'I')
        ex.oblige('precondition', st, all_(k, a.off, sub(b.off, I(1)), le(lapp(arr, k), lapp(arr, add(k, I(1))))), c.loc, 'lower_bound range is sorted')
        r = add(a.off, D.C(i)); st2 = list(st.pc)
        # valid inside the length; outside it any position may be returned
        p = app('lower_bound', 'I', i)
        ok = and_(ge(i, I(0)), lt(i, D.n))
        inst = [D.mono(lapp(arr, q), i), D.mono(i, lapp(arr, q))]
        ex.oblige('precondition', st, imp(ok, and_(ge(D.C(i), I(0)), le(r, b.off))), c.loc, 'the rank is a position of the range')
        ex.oblige('precondition', st, imp(and_(*inst), imp(and_(ok, ge(q, a.off), lt(q, r)), lt(lapp(arr, q), i))), c.loc, 'smaller positions come before the rank')
        ex.oblige('precondition', st, imp(and_(*inst), imp(and_(ok, ge(q, r), lt(q, b.off)), ge(lapp(arr, q), i))), c.loc, 'positions from the rank on are not smaller')
        st.assume(or_(not_(ok), eq(p, r)))
        return Ptr(a.base, r if ex.quick(st, ok, 2000) else p)
    u.contract('std::lower_bound', h)
def typ(u, nm): return next(i for i, t in enumerate(u.prog.types) if t.get('s') == N + nm and t['k'] == 'rec')
