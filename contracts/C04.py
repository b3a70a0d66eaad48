"""C04: admissibility, expansion and the frontier follow the neighbour relation."""
from unit import *
from spec_set import *
P = 'C04'; TU = 'C03'
import unit as _u
def unit(prop, **kw): return _u.unit(prop, ematch=True, **kw)
def count(u, name, n, b, hyps=()):
    """the number of positions below m at which b holds, and: it is m exactly when b holds at all of them (by induction)"""
    q, j = fresh('q', 'I'), fresh('j', 'I'); S = lambda m: sum_(q, I(0), m, ite(b(q), I(1), I(0)))
    r = u.induct('%s: at most one per position, all of them exactly when the count is full' % name, None, lambda m: and_(ge(S(m), I(0)), le(S(m), m), iff(eq(S(m), m), all_(j, I(0), m, b(j)))), hyps=hyps)
    r(n); return S
@unit(P, name='IsAdmissible (active or outside the limiter)', targets=M + 'IsAdmissible')
def _(u):
    f = overload(u, 'IsAdmissible', 'int'); this, S = the_set(u, f); g = u.int('g'); u.assume(lt(g, S.G)); x = S.id(g)
    u.assume(or_(S.act(g), not_(lim(x)))); o = u.call(f, this, [g]); u.nothrow(o); u.post('admissible exactly when it passes the limiter', iff(o.ret, lim(x)))
@unit(P, name='IsAdmissible', targets=M + 'IsAdmissible', timeout=20000)
def _(u):
    f = overload(u, 'IsAdmissible', 'int'); this, S = the_set(u, f); g = u.int('g'); u.assume(lt(g, S.G)); x = S.id(g); u.assume(not_(S.act(g))); u.assume(lim(x))
    o = u.call(f, this, [g]); u.nothrow(o)
    el, ps, n = u.ex.enums[-1]; k, h, q, t = fresh('k', 'I'), fresh('h', 'I'), fresh('q', 'I'), fresh('t', 'I')
    for c in o.st.pc: u.assume(c)
    u.lemma('the loop visits every incoming edge once', and_(ge(n, I(0)), all_(k, I(0), n, and_(S.inn(g, el(k)), eq(ps(el(k)), k))), forall(h, imp(S.inn(g, h), and_(between(I(0), ps(h), n), eq(el(ps(h)), h))))))
    B_ = lambda j: S.active(bwd(x, j)); one = lambda c: ite(c, I(1), I(0)); v = lambda j: S.val(bwd(x, j)); at = lambda k: bi(x, S.id(el(k)))
    k = fresh('k', 'I'); u.lemma_all('incoming edges come from backward neighbours', k, I(0), n, and_(S.known(el(k)), between(I(0), at(k), NB(x)), eq(bwd(x, at(k)), S.id(el(k))), eq(v(at(k)), el(k)), S.dom(bwd(x, at(k)))))
    j = fresh('j', 'I'); u.lemma_all('active backward neighbours have an edge', j, I(0), NB(x), imp(B_(j), and_(S.inn(g, v(j)), eq(S.id(v(j)), bwd(x, j)), between(I(0), ps(v(j)), n), eq(at(ps(v(j))), j), eq(el(ps(v(j))), v(j)), S.act(v(j)))))
    T = lambda m, t: sum_(q, I(0), t, one(and_(S.act(el(q)), lt(at(q), m)))); m = fresh('m', 'I')
    visits = u.induct('visits of one backward neighbour', None, lambda t: imp(le(t, n), eq(T(add(m, I(1)), t), add(T(m, t), one(and_(B_(m), lt(ps(v(m)), t)))))), hyps=[between(I(0), m, NB(x))])
    visits(n); S2 = lambda m: sum_(q, I(0), m, one(B_(q)))
    step = lambda m: imp(between(I(0), m, NB(x)), eq(T(add(m, I(1)), n), add(T(m, n), one(B_(m)))))
    mm = fresh('m', 'I'); u.lemma_all('counting by backward neighbour (step)', mm, I(0), NB(x), step(mm), facts=[subst(u.ex.hyps[-1], {m: mm})])
    agree = u.induct('counting by edge and by backward neighbour agree', None, lambda m: imp(le(m, NB(x)), eq(T(m, n), S2(m))), facts=[step])
    agree(NB(x)); full = count(u, 'active backward neighbours', NB(x), B_)
    C = sum_(q, I(0), n, one(S.act(el(q)))); u.lemma('every visited edge is counted under some backward neighbour', eq(T(NB(x), n), C))
    u.lemma('the active incoming edges are as many as the backward neighbours exactly when all of these are active', iff(eq(C, NB(x)), all_(j, I(0), NB(x), B_(j))))
    u.post('admissible exactly when all backward neighbours are active', iff(o.ret, all_(j, I(0), NB(x), B_(j))))
def filtered(u, what, vec, n, keep, num_, at=None, define=None):
    """the vector lists num(k) for exactly the k below n that are kept, in increasing order of k"""
    q, k = fresh('q', 'I'), fresh('k', 'I')
    if define is not None: u.assume(all_(k, I(0), n, iff(keep(k), define(k))))      # names the predicate
    one = lambda k: ite(keep(k), I(1), I(0)); C = u.prefix_sums(one, n, what)
    u.post('as many entries as there are of %s' % what, eq(vec.n, C(n)))
    if vec.n.op == 'sum':                                    # the places the code writes to are counted alike
        w, (lo, hi, body) = open_binder(vec.n); m = fresh('m', 'I'); u.lemma_all('the count of %s so far' % what, m, I(0), add(n, I(1)), eq(sum_(w, lo, m, body), C(m)))
    a, b = u.int('a'), u.int('b'); u.assume(lt(a, n)); u.assume(keep(a)); at = at or (lambda i: unlift(vec.e, i)); p1 = add(a, I(1)); m = fresh('m', 'I')
    u.lemma('%s: the place of a' % what, eq(C(p1), add(C(a), I(1))))
    u.lemma_all('%s: later ones follow' % what, m, p1, add(n, I(1)), gt(C(m), C(a)), facts=[C.mono(p1, m)])
    m = fresh('m', 'I'); u.lemma_all('%s: earlier ones precede' % what, m, I(0), a, imp(keep(m), lt(C(m), C(a))), facts=[C.mono(add(m, I(1)), a), eq(C(add(m, I(1))), add(C(m), one(m)))])
    u.post('the list contains %s' % what, eq(at(C(a)), num_(a))); u.post('the list contains %s (within its length)' % what, between(I(0), C(a), vec.n))
    u.post('none of %s is listed twice' % what, ne(C(a), C(b)), hyps=[lt(b, n), keep(b), ne(a, b)])
    u.induct('every place of the list is taken (%s)' % what, None, lambda m: imp(and_(le(m, n), lt(b, C(m))), any_(k, I(0), m, and_(keep(k), eq(C(k), b)))))(n)
    k0 = u.int('k0'); u.post('the list contains only %s' % what, or_(ge(b, C(n)), any_(k, I(0), n, and_(keep(k), eq(C(k), b)))))
    u.ex.hyps.remove(keep(a)) if False else None
@unit(P, name='IsAdmissible (by value)', targets=M + 'IsAdmissible')
def _(u):
    f = overload(u, 'IsAdmissible', 'MultiIndex'); this, S = the_set(u, f); admissible_contract(u); x = u.int('x', None)
    o = u.call(f, this, [mi(x)]); u.nothrow(o); u.post('stored and admissible', iff(o.ret, and_(S.dom(x), S.adm(x))))
@unit(P, name='IsExpandable', targets=M + 'IsExpandable')
def _(u):
    f = overload(u, 'IsExpandable', 'int'); this, S = the_set(u, f); admissible_contract(u); a = u.int('a'); u.assume(lt(a, S.A))
    o = u.call(f, this, [a]); u.nothrow(o); u.post('expandable exactly when some inactive forward neighbour is admissible', iff(o.ret, expandable(S, S.id(S.a2g(a)))))
@unit(P, name='Frontier', targets=M + 'Frontier')
def _(u):
    f = overload(u, 'Frontier'); this, S = the_set(u, f); expandable_contract(u)
    o = u.call(f, this, []); u.nothrow(o); 
    for c in o.st.pc: u.assume(c)
    filtered(u, 'the expandable ones', o.ret, S.A, lambda k: named(u, expandable(S, S.id(S.a2g(k))), k), lambda v: v)
def all_facts(u, o):
    for c in o.st.pc: u.assume(c)
def strict(S, x): i = fresh('i', 'I'); return all_(i, I(0), NF(x), not_(S.active(fwd(x, i))))
@unit(P, name='ReducedMargin', targets=M + 'ReducedMargin')
def _(u):
    f = overload(u, 'ReducedMargin'); this, S = the_set(u, f); admissible_contract(u)
    o = u.call(f, this, []); u.nothrow(o); all_facts(u, o); x = u.int('x', None)
    filtered(u, 'the reduced margin', o.ret, S.G, lambda g: and_(not_(S.act(g)), named(u, S.adm(S.id(g)), g)), lambda g: S.id(g), at=lambda i: unlift(o.ret.e, i).f['$id'])
    u.post('inactive admissible multi-indices with a backward neighbour are stored', S.dom(x), hyps=[not_(S.active(x)), S.adm(x), gt(NB(x), I(0))])
@unit(P, name='Margin', targets=M + 'Margin')
def _(u):
    f = overload(u, 'Margin'); this, S = the_set(u, f); j = fresh('j', 'I')
    o = u.call(f, this, []); u.nothrow(o); all_facts(u, o); x = u.int('x', None)
    inm = lambda x: and_(lim(x), not_(S.active(x)), any_(j, I(0), NB(x), S.active(bwd(x, j))))
    filtered(u, 'the margin', o.ret, S.G, lambda g: named(u, inm(S.id(g)), g), lambda g: S.id(g), at=lambda i: unlift(o.ret.e, i).f['$id'], define=lambda g: inm(S.id(g)))
    u.post('multi-indices of the margin are stored', S.dom(x), hyps=[inm(x)])
@unit(P, name='AdmissibleForwardNeighbors', targets=M + 'AdmissibleForwardNeighbors')
def _(u):
    f = overload(u, 'AdmissibleForwardNeighbors', 'int'); this, S = the_set(u, f); admissible_contract(u); a = u.int('a0'); u.assume(lt(a, S.A)); g = S.a2g(a); x = S.id(g)
    o = u.call(f, this, [a]); u.nothrow(o); all_facts(u, o); el, ps, n = u.ex.enums[-1]; y = u.int('y', None)
    filtered(u, 'the admissible forward neighbours', o.ret, n, lambda k: named(u, S.adm(S.id(el(k))), k), lambda k: S.id(el(k)), at=lambda i: unlift(o.ret.e, i).f['$id'])
    h = ps(S.val(y)); k = u.int('k'); u.assume(lt(k, n))
    u.post('every admissible forward neighbour is visited', and_(between(I(0), h, n), eq(S.id(el(h)), y)), hyps=[rel(x, y), S.adm(y)])
    u.post('only forward neighbours are visited', rel(x, S.id(el(k))))
