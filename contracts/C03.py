"""C03: index sets keep active multi-indices distinct, findable and stably numbered."""
from unit import *
from spec_set import *
P = 'C03'; TU = 'C03'
@unit(P, name='MultiToIndex', targets=M + 'MultiToIndex')
def _(u):
    f = overload(u, 'MultiToIndex', 'MultiIndex'); this, S = the_set(u, f, edges=False); x = u.int('x', None)
    o = u.call(f, this, [mi(x)]); u.nothrow(o)
    u.post('an active multi-index is found at its number', and_(between(I(0), o.ret, S.A), eq(S.id(S.a2g(o.ret)), x)), hyps=[S.active(x)])
    u.post('an inactive one is reported absent', eq(o.ret, I(-1)), hyps=[not_(S.active(x))])
@unit(P, name='IsActive', targets=M + 'IsActive')
def _(u):
    f = overload(u, 'IsActive', 'MultiIndex'); this, S = the_set(u, f, edges=False); x = u.int('x', None)
    o = u.call(f, this, [mi(x)]); u.nothrow(o); u.post('active exactly when it has a number', eq(o.ret, S.active(x)))
@unit(P, name='at and operator[]', targets=(M + 'at', M + 'operator[]', M + 'IndexToMulti', M + 'Size'))
def _(u):
    f = overload(u, 'at', 'int'); this, S = the_set(u, f, edges=False); a, b = u.int('a'), u.int('b'); u.assume(and_(lt(a, S.A), lt(b, S.A)))
    o = u.call(f, this, [a]); u.nothrow(o); p = u.call(overload(u, 'operator[]', 'int'), this, [b]); r = u.load(p.ret, p.st) if isinstance(p.ret, Ref) else p.ret; u.nothrow(p)
    u.post('active multi-indices are distinct', ne(o.ret.f['$id'], r.f['$id']), hyps=[ne(a, b)])
    q = u.call(overload(u, 'MultiToIndex', 'MultiIndex'), this, [o.ret]); u.post('looking up the a-th returns a', eq(q.ret, a))
    u.post('the size is the number of active multi-indices', eq(u.call(u.fn(M + 'Size'), this, []).ret, S.A))
# ---- operations that add or activate: nothing moves, whatever the neighbourhood and the limiter
INT = ('int',)
def start(u, name, *tys):
    f = overload(u, name, *tys); this, S = the_set(u, f, edges=False); entries(u)
    for t in holds(sane(S)): u.assume(t)
    u.ex.plain_invs = True; return f, this, S
def keep(u, this, S0, activity=True, extra=lambda S0, H, k: []):
    """loop invariant: the set at any iteration extends the set before the loop"""
    def inv(ex, base, s0, k, unresolved):
        H = F(s0.store[this.root]); return holds(sane(H)) + holds(grown(S0, H, activity)) + list(extra(S0, H, k))
    u.ex.invs.append(inv); u.ex.opaque.add(this.root)
def unchanged(u, this, v, o):
    a, b = dict(loops.leaves(v)), dict(loops.leaves(u.load(this, o.st)))
    def equal(x, y, w=()):
        if x is y: return TRUE
        if x.op == 'lam' or y.op == 'lam' or x.s not in ('I', 'R', 'B'): v = fresh('w', 'I'); return forall(v, equal(lapp(x, v), lapp(y, v)))
        return iff(x, y) if x.s == 'B' else eq(x, y)
    u.post('nothing changes', and_(B(set(a) == set(b)), *[equal(a[p], b[p]) for p in a if p in b]), st=o.st)
def known_pre(ex, st, c): S = F(ex.val(st, c.obj)); g = ex.val(st, c.args[0]); return [(S.known(g), 'the multi-index is stored')]
def on(u, name, tys, h): u.contract(overload(u, name, *tys)['id'], h)
def c_link(ex, st, c):
    """AddForwardNeighbors, AddBackwardNeighbors"""
    fl = ex.val(st, c.args[1]); grow_contract(ex, st, c, pre=known_pre(ex, st, c), nodes=fl is not FALSE, activity=False)
def c_add_multi(ex, st, c):
    x = ex.val(st, c.args[0]).f['$id']; S = F(ex.val(st, c.obj)); G = S.G
    grow_contract(ex, st, c, pre=[(not_(S.dom(x)), 'the multi-index is new')], activity=False, G=add(G, I(1)), extra=lambda S0, S1: [eq(S1.id(G), x)]); return G
def c_add_inactive(ex, st, c):
    x = ex.val(st, c.args[0]).f['$id']; r = fresh('r', 'I')
    grow_contract(ex, st, c, activity=False, extra=lambda S0, S1: add_inactive(S0, S1, x, r)); return r
def add_inactive(S0, S1, x, r):
    return [ite(lim(x), and_(S1.known(r), eq(S1.id(r), x), imp(S0.dom(x), and_(eq(r, S0.val(x)), eq(S1.G, S0.G)))), and_(eq(r, I(-1)), eq(S1.G, S0.G)))]
def c_activate(ex, st, c):
    g = ex.val(st, c.args[0]); grow_contract(ex, st, c, pre=known_pre(ex, st, c), extra=lambda S0, S1: activated(S0, S1, g))
def activated(S0, S1, g):
    h = fresh('h', 'I'); return [S1.act(g), eq(S1.A, ite(S0.act(g), S0.A, add(S0.A, I(1)))), imp(not_(S0.act(g)), eq(S1.g2a(g), S0.A)), all_(h, I(0), S0.G, or_(eq(h, g), eq(S1.g2a(h), S0.g2a(h)))), all_(h, S0.G, S1.G, not_(S1.act(h)))]
def c_add_active(ex, st, c):
    x = ex.val(st, c.args[0]).f['$id']; r = fresh('r', 'I'); grow_contract(ex, st, c, extra=lambda S0, S1: add_active(S0, S1, x, r)); return r
def add_active(S0, S1, x, r):
    y = fresh('y', 'I')
    return [ite(lim(x), and_(S1.active(x), eq(r, S1.g2a(S1.val(x))), ite(S0.active(x), eq(S1.A, S0.A), and_(eq(r, S0.A), eq(S1.A, add(S0.A, I(1)))))), and_(eq(r, I(-1)), eq(S1.A, S0.A))),
            forall(y, or_(eq(y, x), iff(S1.active(y), S0.active(y))))]
@unit(P, name='AddForwardNeighbors (linking only)', targets=M + 'AddForwardNeighbors', ematch=True)
def _(u):
    f, this, S = start(u, 'AddForwardNeighbors', 'int', 'bool'); g = u.int('g'); u.assume(lt(g, S.G)); keep(u, this, S, False, lambda S0, H, k: [eq(H.G, S.G)])
    o = u.call(f, this, [g, FALSE]); u.nothrow(o); S1 = grow_posts(u, o, this, S, False); u.post('nothing is added', eq(S1.G, S.G), st=o.st)
@unit(P, name='AddBackwardNeighbors (linking only)', targets=M + 'AddBackwardNeighbors', ematch=True)
def _(u):
    f, this, S = start(u, 'AddBackwardNeighbors', 'int', 'bool'); g = u.int('g'); u.assume(lt(g, S.G)); keep(u, this, S, False, lambda S0, H, k: [eq(H.G, S.G)])
    o = u.call(f, this, [g, FALSE]); u.nothrow(o); S1 = grow_posts(u, o, this, S, False); u.post('nothing is added', eq(S1.G, S.G), st=o.st)
for name in ('AddForwardNeighbors', 'AddBackwardNeighbors'):
    @unit(P, name=name, targets=M + name, ematch=True)
    def _(u, name=name):
        f, this, S = start(u, name, 'int', 'bool'); g = u.int('g'); u.assume(lt(g, S.G)); keep(u, this, S, False); on(u, 'AddInactive', ('MultiIndex',), c_add_inactive)
        o = u.call(f, this, [g, TRUE]); u.nothrow(o); grow_posts(u, o, this, S, False)
@unit(P, name='AddMulti', targets=M + 'AddMulti', ematch=True)
def _(u):
    f, this, S = start(u, 'AddMulti', 'MultiIndex'); x = u.int('x', None); u.assume(not_(S.dom(x)))
    for n in ('AddForwardNeighbors', 'AddBackwardNeighbors'): on(u, n, ('int', 'bool'), c_link)
    o = u.call(f, this, [mi(x)]); u.nothrow(o); S1 = grow_posts(u, o, this, S, False); u.post('one multi-index is added', eq(S1.G, add(S.G, I(1))), st=o.st)
    u.post('it is the given one, and its place is returned', and_(eq(o.ret, S.G), eq(S1.id(o.ret), x)), st=o.st)
@unit(P, name='AddInactive', targets=M + 'AddInactive', ematch=True)
def _(u):
    f, this, S = start(u, 'AddInactive', 'MultiIndex'); x = u.int('x', None); on(u, 'AddMulti', ('MultiIndex',), c_add_multi)
    o = u.call(f, this, [mi(x)]); u.nothrow(o); S1 = grow_posts(u, o, this, S, False)
    u.post('returns the place of the multi-index, or -1 when it fails the limiter', and_(*add_inactive(S, S1, x, o.ret)), st=o.st)
@unit(P, name='Activate', targets=M + 'Activate', ematch=True)
def _(u):
    f, this, S = start(u, 'Activate', 'int'); g = u.int('g'); u.assume(lt(g, S.G)); x = S.id(g)
    def inv(ex, base, s0, k, unresolved):
        H = F(s0.store[this.root]); d, j = fresh('d', 'I'), fresh('j', 'I')
        return [all_(d, I(0), S.f['length'], and_(ge(H.mo(d), S.mo(d)), or_(eq(H.mo(d), S.mo(d)), eq(H.mo(d), ent(x, d))))), all_(j, I(0), k, ge(H.mo(nzi(x, j)), ent(x, nzi(x, j))))]
    u.ex.invs.append(inv); u.ex.opaque.add(this.root)
    for n in ('AddForwardNeighbors', 'AddBackwardNeighbors'): on(u, n, ('int', 'bool'), c_link)
    o = u.call(f, this, [g]); u.nothrow(o); S1 = grow_posts(u, o, this, S)
    for n, t in enumerate(activated(S, S1, g)): u.post('the multi-index becomes active with the next number, and no other changes (%d)' % n, t, st=o.st)
@unit(P, name='Activate (already active)', targets=M + 'Activate', ematch=True)
def _(u):
    f, this, S = start(u, 'Activate', 'int'); g = u.int('g'); u.assume(lt(g, S.G)); u.assume(S.act(g)); v = u.load(this)
    o = u.call(f, this, [g]); u.nothrow(o); unchanged(u, this, v, o)
@unit(P, name='AddActive', targets=M + 'AddActive', ematch=True)
def _(u):
    f, this, S = start(u, 'AddActive', 'MultiIndex'); x = u.int('x', None); on(u, 'AddInactive', ('MultiIndex',), c_add_inactive); on(u, 'Activate', INT, c_activate)
    o = u.call(f, this, [mi(x)]); u.nothrow(o); S1 = grow_posts(u, o, this, S)
    for n, t in enumerate(add_active(S, S1, x, o.ret)): u.post('the multi-index is active and its number is returned, or it fails the limiter (%d)' % n, t, st=o.st)
@unit(P, name='operator+=(MultiIndex)', targets=M + 'operator+=', ematch=True)
def _(u):
    f, this, S = start(u, 'operator+=', 'MultiIndex'); x = u.int('x', None); on(u, 'AddActive', ('MultiIndex',), c_add_active)
    o = u.call(f, this, [mi(x)]); u.nothrow(o); S1 = grow_posts(u, o, this, S); u.post('the multi-index is active, unless it fails the limiter', imp(lim(x), S1.active(x)), st=o.st)
# ---- unions and expansions: the newly active multi-indices take the next numbers, in order
def new_numbers(S0, H, L, n0=I(0)): i = fresh('i', 'I'); return [eq(L.n, add(n0, sub(H.A, S0.A))), all_(i, I(0), sub(H.A, S0.A), eq(unlift(L.e, add(n0, i)), add(S0.A, i)))]
def lists(ex, s0, base):
    """the vectors of numbers among the local objects"""
    return [v for r, v in s0.store.items() if isinstance(v, Vec) and isinstance(v.e, T) and v.e.op == 'lam' and base.store.get(r) is not v]
@unit(P, name='Union', targets=M + 'Union', ematch=True)
def _(u):
    f, this, S = start(u, 'Union', 'MultiIndexSet'); rhs = u.obj(f, 'rhs'); R = the_set(u, rhs, 'rhs', edges=False)[1]
    y = fresh('y', 'I')
    def more(S0, H, k):
        i, y = fresh('i', 'I'), fresh('y', 'I'); return [all_(i, I(0), k, or_(not_(lim(R.id(i))), not_(R.act(i)), H.active(R.id(i)))), forall(y, imp(H.active(y), or_(S0.active(y), and_(lim(y), R.active(y)))))]
    keep(u, this, S, True, more); on(u, 'AddInactive', ('MultiIndex',), c_add_inactive); on(u, 'AddActive', ('MultiIndex',), c_add_active)
    o = u.call(f, this, [rhs]); u.nothrow(o); S1 = grow_posts(u, o, this, S); x = u.int('x', None)
    u.post('active afterwards: what was active, and what is active in the other set and passes the limiter', iff(S1.active(x), or_(S.active(x), and_(lim(x), R.active(x)))), st=o.st)
    u.post('the number of new terms is returned', eq(o.ret, sub(S1.A, S.A)), st=o.st); u.post('the other set is unchanged', B(u.load(rhs, o.st) is u.load(rhs)))
def c_admissible(ex, st, c):
    for t, w in known_pre(ex, st, c): ex.oblige('precondition', st, t, c.loc, w)
    return fresh('adm', 'B')          # any answer
def numbered(S0, this, un, H, n0=I(0)):
    """the lists grown by a loop hold exactly the numbers given out so far, in order"""
    out = []; i = fresh('i', 'I')
    for L in un:
        if L.root == this.root or L.rs != 'I': continue
        if not L.ss: out.append(eq(L.hav, add(n0, sub(H.A, S0.A))))
        elif len(L.ss) == 1: out += [all_(i, I(0), sub(H.A, S0.A), eq(lapp(L.hav, add(n0, i)), add(S0.A, i))), all_(i, I(0), n0, eq(lapp(L.hav, i), lapp(L.base, i)))]
    return out
def grow_numbered(u, this, S, n0=I(0)):
    def inv(ex, base, s0, k, un): return numbered(S, this, un, F(s0.store[this.root]), n0)
    u.ex.invs.append(inv)
def listed(u, o, this, S, S1, l, n0=I(0)):
    i = u.int('i'); u.post('exactly the newly active multi-indices are listed', eq(l.n, add(n0, sub(S1.A, S.A))), st=o.st)
    u.post('their numbers are the next ones, in order', eq(unlift(l.e, add(n0, i)), add(S.A, i)), st=o.st, hyps=[lt(i, sub(S1.A, S.A))])
@unit(P, name='Expand (one)', targets=M + 'Expand', ematch=True)
def _(u):
    f, this, S = start(u, 'Expand', 'int'); a = u.int('a'); keep(u, this, S); grow_numbered(u, this, S); on(u, 'IsAdmissible', INT, c_admissible); on(u, 'Activate', INT, c_activate)
    o = u.call(f, this, [a]); u.throws_iff(o, ge(a, S.A), 'raises exactly when there is no such active multi-index'); u.assume(lt(a, S.A)); S1 = grow_posts(u, o, this, S); listed(u, o, this, S, S1, o.ret)
def c_frontier(ex, st, c):
    S = F(ex.val(st, c.obj)); n = fresh('n', 'I'); e = Fresh_.fn('I', 1); i = fresh('i', 'I'); ex.nfacts += 1
    st.assume(ge(n, I(0))); st.assume(all_(i, I(0), n, between(I(0), lapp(e, i), S.A))); return Vec(n, e)
def stored_lists(u, this):
    """lists of multi-indices refer to stored ones"""
    def inv(ex, base, s0, k, un):
        H = F(s0.store[this.root]); i = fresh('i', 'I'); out = []
        for r in dict.fromkeys(L.root for L in un):
            v = s0.store[r]
            if r != this.root and isinstance(v, Vec) and not isinstance(v.e, V): out += [ge(v.n, I(0)), all_(i, I(0), v.n, H.known(unlift(v.e, i)))]
        return out
    u.ex.invs.append(inv)
@unit(P, name='Expand (all)', targets=M + 'Expand', ematch=True)
def _(u):
    f, this, S = start(u, 'Expand'); keep(u, this, S); grow_numbered(u, this, S); stored_lists(u, this); on(u, 'IsAdmissible', INT, c_admissible); on(u, 'Activate', INT, c_activate); u.contract(M + 'Frontier', c_frontier)
    o = u.call(f, this, []); u.nothrow(o); S1 = grow_posts(u, o, this, S); listed(u, o, this, S, S1, o.ret)
def c_forcibly(ex, st, c):
    g = ex.val(st, c.args[0]); l = ex.val(st, c.args[1]); S0, S1 = grow_contract(ex, st, c, pre=known_pre(ex, st, c), extra=lambda S0, S1: [S1.act(g)]); e = Fresh_.fn('I', 1); i = fresh('i', 'I')
    n = add(l.n, sub(S1.A, S0.A)); ex.store(st, c.args[1], Vec(n, e))
    if l.e is not None: st.assume(all_(i, I(0), l.n, eq(lapp(e, i), unlift(l.e, i))))
    st.assume(all_(i, I(0), sub(S1.A, S0.A), eq(lapp(e, add(l.n, i)), add(S0.A, i))))
@unit(P, name='ForciblyActivate', targets=M + 'ForciblyActivate', ematch=True)
def _(u):
    f = u.fn(M + 'ForciblyActivate', nargs=2); this, S = the_set(u, f, edges=False); entries(u)
    for t in holds(sane(S)): u.assume(t)
    u.ex.plain_invs = True; g = u.int('g'); u.assume(lt(g, S.G)); n0 = u.int('n0'); l = u.ref(Vec(n0, fun('l0', 'I', 'I')), 'new'); u.contract(f['id'], c_forcibly); on(u, 'Activate', INT, c_activate)
    keep(u, this, S, True, lambda S0, H, k: [H.act(g)]); grow_numbered(u, this, S, n0); o = u.call(f, this, [g, l]); u.nothrow(o); S1 = grow_posts(u, o, this, S); u.post('the multi-index is active', S1.act(g), st=o.st)
    L = u.load(l, o.st); listed(u, o, this, S, S1, L, n0); i = u.int('i2'); u.post('the list before is kept', eq(unlift(L.e, i), app('l0', 'I', i)), st=o.st, hyps=[lt(i, n0)])
@unit(P, name='ForciblyActivate (by value)', targets=M + 'ForciblyActivate', ematch=True)
def _(u):
    f, this, S = start(u, 'ForciblyActivate', 'MultiIndex'); x = u.int('x', None); u.assume(lim(x)); u.contract(u.fn(M + 'ForciblyActivate', nargs=2)['id'], c_forcibly); on(u, 'AddInactive', ('MultiIndex',), c_add_inactive)
    o = u.call(f, this, [mi(x)]); u.nothrow(o); S1 = grow_posts(u, o, this, S); u.post('the multi-index is active', S1.active(x), st=o.st); listed(u, o, this, S, S1, o.ret)
@unit(P, name='ForciblyExpand', targets=M + 'ForciblyExpand', ematch=True)
def _(u):
    f, this, S = start(u, 'ForciblyExpand', 'int'); a = u.int('a'); u.assume(lt(a, S.A)); u.contract(u.fn(M + 'ForciblyActivate', nargs=2)['id'], c_forcibly); keep(u, this, S); grow_numbered(u, this, S)
    o = u.call(f, this, [a]); u.nothrow(o); S1 = grow_posts(u, o, this, S); listed(u, o, this, S, S1, o.ret)
@unit(P, name='copy assignment', targets=M + 'operator=', ematch=True)
def _(u):
    f, this, S = start(u, 'operator=', 'MultiIndexSet'); rhs = u.obj(f, 'rhs'); R = the_set(u, rhs, 'rhs', edges=False)[1]
    o = u.call(f, this, [rhs]); u.nothrow(o); unchanged(u, this, u.load(rhs), o)
@unit(P, name='AddActive (active already)', targets=(M + 'AddActive', M + 'AddInactive', M + 'Activate'), ematch=True)
def _(u):
    f, this, S = start(u, 'AddActive', 'MultiIndex'); x = u.int('x', None); u.assume(S.active(x)); v = u.load(this); on(u, 'AddMulti', ('MultiIndex',), c_add_multi)
    for n in ('AddForwardNeighbors', 'AddBackwardNeighbors'): on(u, n, ('int', 'bool'), c_link)
    o = u.call(f, this, [mi(x)]); u.nothrow(o); unchanged(u, this, v, o)
@unit(P, name='Activate (by value)', targets=M + 'Activate', ematch=True)
def _(u):
    f, this, S = start(u, 'Activate', 'MultiIndex'); x = u.int('x', None); u.assume(S.dom(x)); on(u, 'IsAdmissible', INT, lambda ex, st, c: TRUE); on(u, 'Activate', INT, c_activate)
    o = u.call(f, this, [mi(x)]); u.nothrow(o); S1 = grow_posts(u, o, this, S); u.post('the multi-index is active', S1.active(x), st=o.st)
