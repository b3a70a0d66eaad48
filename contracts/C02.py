"""C02: multi-index comparison is a strict total order agreeing with equality."""
from unit import *
from spec_mi import *
P = 'C02'; TU = 'C01'
M = N + 'MultiIndex::'
def pair(u, op):
    f = u.fn(M + op); a = u.obj(f); A = mi(u, a, 'a'); b = u.obj(f['cls'], 'b'); Bd = mi(u, b, 'b'); get(u, {a.root: A, b.root: Bd})
    A.F, Bd.F = u.fields(a), u.fields(b); return f, a, b, A, Bd
def equal(A, Bd):
    p = fresh('p', 'I'); return and_(eq(A.n, Bd.n), all_(p, I(0), A.n, eq(A.v(p), Bd.v(p))))
def first_diff(A, Bd):
    p = fresh('p', 'I'); return first_(p, I(0), A.n, ne(A.v(p), Bd.v(p)))
def before(A, Bd):
    """shorter first, then smaller total, then smaller maximum, then the first differing entry decides"""
    d = first_diff(A, Bd); la, lb, ta, tb, ma, mb = A.n, Bd.n, A.F['totalOrder'], Bd.F['totalOrder'], A.F['maxValue'], Bd.F['maxValue']
    return or_(lt(la, lb), and_(eq(la, lb), or_(lt(ta, tb), and_(eq(ta, tb), or_(lt(ma, mb), and_(eq(ma, mb), lt(d, la), lt(A.v(d), Bd.v(d))))))))
def same_rep(u, A, Bd):
    """equal vectors have equal ranks"""
    H = [equal(A, Bd)]
    u.induct('equal vectors have equal ranks', None, lambda p: imp(le(p, A.n), eq(A.C(p), Bd.C(p))), hyps=H, facts=[lambda p: imp(and_(ge(p, I(0)), lt(p, A.n)), and_(A.rec(p), imp(lt(p, Bd.n), Bd.rec(p)), eq(A.v(p), Bd.v(p)) if False else TRUE))])
    u.lemma('equal vectors have equal maxima', eq(A.F['maxValue'], Bd.F['maxValue']), hyps=H)
    u.lemma('equal vectors have equal totals', eq(A.F['totalOrder'], Bd.F['totalOrder']), hyps=H)
    u.assume(imp(and_(*H), eq(A.C(A.n), Bd.C(Bd.n))))
    return H
@unit(P, name='operator!=', targets=M + 'operator!=')
def _(u):
    f, a, b, A, Bd = pair(u, 'operator!='); H = same_rep(u, A, Bd); m = fresh('m', 'I')
    gi = lambda D, t: unlift(D.F['nzInds'].e, t); gv = lambda D, t: unlift(D.F['nzVals'].e, t)
    u.lemma_all('equal vectors store the same pairs', m, I(0), A.count(), and_(eq(gi(A, m), gi(Bd, m)), eq(gv(A, m), gv(Bd, m))), hyps=H)
    r = u.call(f, a, [b]); u.nothrow(r); p = u.int('p')
    u.post('equal multi-indices are not different', not_(r.ret), hyps=H)
    u.post('multi-indices that are not different have the same length', eq(A.n, Bd.n), hyps=[not_(r.ret)])
    u.post('multi-indices that are not different have the same entries', eq(A.v(p), Bd.v(p)), hyps=[not_(r.ret), lt(p, A.n), A.stored(p), Bd.stored(p)])
@unit(P, name='operator<', targets=M + 'operator<')
def _(u):
    f, a, b, A, Bd = pair(u, 'operator<')
    r = u.call(f, a, [b]); u.nothrow(r); u.post('the documented order', eq(r.ret, before(A, Bd)))
for op, what in (('operator==', 'not different'), ('operator>', 'the other comes before'), ('operator>=', 'not before'), ('operator<=', 'the other does not come before')):
    @unit(P, name=op, targets=M + op)
    def _(u, op=op, what=what):
        f = u.fn(M + op); a = u.obj(f); b = u.obj(f['cls'], 'b'); ids = {a.root: I(1), b.root: I(2)}
        rel = lambda nm: lambda ex, st, c: app(nm, 'B', ids[c.obj.root if not isinstance(c.obj, ObjPtr) else c.obj.ref.root], ids[c.args[0].root])
        u.contract(M + 'operator<', rel('before')); u.contract(M + 'operator!=', rel('differ'))
        bef = lambda x, y: app('before', 'B', I(x), I(y)); r = u.call(f, a, [b]); u.nothrow(r)
        u.post(what, eq(r.ret, {'operator==': not_(app('differ', 'B', I(1), I(2))), 'operator>': bef(2, 1), 'operator>=': not_(bef(1, 2)), 'operator<=': not_(bef(2, 1))}[op]))
@unit(P, name='exactly one of less, equal, greater', targets=M + 'operator<')
def _(u):
    f, a, b, A, Bd = pair(u, 'operator<'); H = same_rep(u, A, Bd); l, g, e = before(A, Bd), before(Bd, A), equal(A, Bd)
    u.post('not both less and greater', not_(and_(l, g)))
    u.post('equal multi-indices are neither less nor greater', not_(or_(l, g)), hyps=[e])
    u.post('multi-indices that are neither less nor greater are equal', e, hyps=[not_(l), not_(g)])
@unit(P, name='transitive', targets=M + 'operator<')
def _(u):
    f, a, b, A, Bd = pair(u, 'operator<'); c = u.obj(f['cls'], 'c'); Cd = mi(u, c, 'c'); Cd.F = u.fields(c)
    u.post('less is transitive', before(A, Cd), hyps=[before(A, Bd), before(Bd, Cd)])
