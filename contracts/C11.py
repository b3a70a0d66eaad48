"""C11: bracketing and scalar inversion."""
from unit import *
from spec_common import *
P = 'C11'; TU = 'C11'
N = 'mpart::RootFinding::'
f_ = lambda x: app('f', 'R', x)
def increasing(u):
    x, y = fresh('x', 'R'), fresh('y', 'R')
    return all_(x, None, None, all_(y, None, None, imp(lt(x, y), lt(f_(x), f_(y)))))
def setup(u, meth):
    fn = u.fn(N + meth, pred=lambda f: 'body' in f)
    u.contract('AbstractFunction::operator()', lambda ex, st, c: f_(ex.val(st, c.args[0])))
    tid = next(i for i, t in enumerate(u.prog.types) if t.get('s') == 'AbstractFunction' and t['k'] == 'rec')
    return fn, u.obj(tid, 'f')
def bracket_invs(u, yd):
    """candidate facts about the scalars a loop modifies: which are values of the function at which, and how they compare"""
    def inv(ex, base, s0, k, un):
        ls = [L for L in un if not L.ss and L.rs == 'R' and not (L.base.op == 'sym' and str(L.base.a[0]).startswith('undef'))]; out = []
        val = [(a, b) for a in ls for b in ls if a is not b and (b.base is f_(a.base) or ('ite' in (a.base.op, b.base.op) and ex.quick(base, eq(b.base, f_(a.base)), 500)))]
        for a, b in val: out += [eq(b.hav, f_(a.hav)), le(b.hav, yd), ge(b.hav, yd)]
        pts = list(dict.fromkeys(a for a, _ in val))
        for a in pts:
            for b in pts:
                if a is not b: out += [le(a.hav, b.hav), lt(a.hav, b.hav)]
        vs = list(dict.fromkeys(b for _, b in val))
        out += [le(a.hav, b.hav) for a in vs for b in vs if a is not b]
        return out
    u.ex.invs.append(inv)
absr = lambda t: ite(ge(t, R(0)), t, neg(t))
def pow2(n):
    i = fresh('i', 'I'); return prod_(i, I(0), n, R(2))
def doubling(u):
    """step sizes 1, 2, 4, ...: positive, and the steps before step n cover 2^n - 1"""
    q = fresh('q', 'I')
    u.induct('steps are at least one', None, lambda n: ge(pow2(n), R(1)))
    return u.induct('distance covered by the steps', None, lambda n: eq(sum_(q, I(0), n, pow2(q)), sub(pow2(n), R(1))))
for above in (True, False):
  @unit(P, name='FindBracket (%s)' % ('started above the target' if above else 'started at or below the target'), targets=N + 'FindBracket')
  def _(u, above=above):
    fn, F = setup(u, 'FindBracket'); yd = u.real('yd'); r = {n: u.ref(u.real(n)) for n in ('xlb', 'ylb', 'xub', 'yub')}; info = u.ref(u.int('info', None))
    bracket_invs(u, yd); dist = doubling(u); x0 = u.load(r['xlb']); u.assume(gt(f_(x0), yd) if above else le(f_(x0), yd))
    o = u.call(fn, None, [F, r['xlb'], r['ylb'], r['xub'], r['yub'], yd, info]); u.nothrow(o)
    v = {n: u.load(x, o.st) for n, x in r.items()}; i = u.load(info, o.st)
    u.post('status is success, flat or not found', or_(*[eq(i, I(q)) for q in (0, -1, -2)]))
    ok = [eq(i, I(0))]
    u.post('the bounds are ordered', lt(v['xlb'], v['xub']), hyps=ok)
    u.post('the reported values are those of the function', and_(eq(v['ylb'], f_(v['xlb'])), eq(v['yub'], f_(v['xub']))), hyps=ok)
    u.post('the bracket encloses the root', and_(le(v['ylb'], yd), le(yd, v['yub'])), hyps=ok)
    dist(I(127)); dist(I(128)); u.lemma('the next step is twice as long', eq(pow2(I(128)), mul(R(2), pow2(I(127)))))
    far = sub(pow2(I(128)), R(1))
    u.post('not found is reported only after a search over a distance of 2^128 from the starting point', gt(f_(sub(x0, far)), yd) if above else lt(f_(add(x0, far)), yd), hyps=[eq(i, I(-2))])

def find_bracket(u, yd):
    """the contract established by the two units above"""
    def h(ex, st, c):
        r = c.args[1:5]; x0 = ex.val(st, r[0]); l, h_, i = fresh('xlb', 'R'), fresh('xub', 'R'), fresh('info', 'I')
        for ref, v in zip(r, (l, f_(l), h_, f_(h_))): ex.store(st, ref, v)
        ex.store(st, c.args[6], i)
        ex.hyps.append(imp(eq(i, I(0)), and_(lt(l, h_), le(f_(l), yd), le(yd, f_(h_)))))
        u.bracket = (l, h_, i); return None
    u.contract(N + 'FindBracket', h)
@unit(P, name='InverseSingleBracket', targets=(N + 'InverseSingleBracket', N + 'swapPair'))
def _(u):
    fn, F = setup(u, 'InverseSingleBracket'); yd, x0 = u.real('yd'), u.real('x0'); xt, ft = u.real('xtol'), u.real('ftol'); info = u.ref(u.int('info', None))
    u.assume(increasing(u)); u.assume(gt(ft, R(0))); u.assume(gt(xt, R(0)))
    bracket_invs(u, yd); find_bracket(u, yd); u.contract(N + 'Find_x_ITP', lambda ex, st, c: app('itp', 'R', *[toreal(ex.val(st, a)) for a in c.args]))      # any point will do
    o = u.call(fn, None, [yd, F, x0, xt, ft, info]); u.nothrow(o)
    i = u.load(info, o.st); x = o.ret; l, h_, bi = u.bracket
    u.post('status is success, out of iterations or no bracket', or_(*[eq(i, I(q)) for q in (0, -1, -2)]))
    u.post('a function that is not bracketed is reported', eq(i, I(-2)), hyps=[lt(bi, I(0))])
    u.post('a solution agrees with the target or lies in a narrow bracket of the root', or_(lt(absr(sub(f_(x), yd)), ft), and_(lt(f_(sub(x, xt)), yd), lt(yd, f_(add(x, xt))))), hyps=[eq(i, I(0))])
@unit(P, name='Find_x_ITP', targets=N + 'Find_x_ITP')
def _(u):
    fn = u.fn(N + 'Find_x_ITP'); v = {p: u.real(p) for p in ('xlb', 'xub', 'yd', 'ylb', 'yub', 'k1', 'k2', 'nhalf', 'n0')}; it = u.int('it'); xt = u.real('xtol')
    u.assume(lt(v['xlb'], v['xub'])); u.assume(lt(v['ylb'], v['yub'])); u.assume(ge(v['k1'], R(0)))
    o = u.call(fn, None, [v[k] for k in ('xlb', 'xub', 'yd', 'ylb', 'yub', 'k1', 'k2', 'nhalf', 'n0')] + [it, xt]); u.nothrow(o)
    half = mul(R(Fraction(1, 2)), sub(v['xub'], v['xlb'])); mid = mul(R(Fraction(1, 2)), add(v['xlb'], v['xub']))
    slack = sub(mul(xt, app('pow', 'R', R(2), sub(add(v['nhalf'], v['n0']), toreal(it)))), half)
    u.post('the point stays within the slack around the midpoint (which makes the bracket shrink at least as fast as bisection delayed by n0 steps)', le(absr(sub(o.ret, mid)), slack), hyps=[ge(slack, R(0))])
