"""Growing multi-index sets. A multi-index is known by its identity (equal multi-indices have equal identities, by the strict order
proved in C05); the neighbour relation and the limiter are arbitrary functions of identities, the relation with the properties proved for
DefaultNeighborhood. The representation invariant of a set relates its two numberings, its edges and its limiter."""
from unit import *
import vals, loops
N = 'mpart::'; M = N + 'MultiIndexSet::'; MI_T = N + 'MultiIndex'
lim = lambda x: app('lim', 'B', x)
NF = lambda x: app('NF', 'I', x)
NB = lambda x: app('NB', 'I', x)
fwd = lambda x, i: app('fwd', 'I', x, i)
bwd = lambda x, j: app('bwd', 'I', x, j)
fi = lambda x, y: app('fi', 'I', x, y)      # position of y among the forward neighbours of x
bi = lambda y, x: app('bi', 'I', y, x)      # position of x among the backward neighbours of y
rel = lambda x, y: app('rel', 'B', x, y)    # y is a forward neighbour of x
nzi = lambda x, j: app('nzi', 'I', x, j)    # coordinates of the nonzero entries, and the entries
ent = lambda x, d: app('ent', 'I', x, d)
mi = lambda x: Rec(MI_T, {'$id': x})
def fields_of(v, s):
    x = v.f['$id']; w = fresh('w', 'I')
    if s == 'nzInds': return Vec(NB(x), lam(w, nzi(x, w)))
    if s == 'nzVals': return Vec(NB(x), lam(w, ent(x, nzi(x, w))))
    if s == 'length': return app('len', 'I', x)
    raise Unsupported('field %s of an abstract multi-index' % s)
vals.DERIVED[MI_T] = fields_of
def between(lo, t, hi): return and_(le(lo, t), lt(t, hi))
def relation(u):
    """what is assumed of the neighbourhood (proved for DefaultNeighborhood)"""
    x, y, i = fresh('x', 'I'), fresh('y', 'I'), fresh('i', 'I')
    u.assume(forall(x, and_(ge(NF(x), I(0)), ge(NB(x), I(0)))))
    u.assume(forall(x, all_(i, I(0), NF(x), and_(rel(x, fwd(x, i)), eq(fi(x, fwd(x, i)), i)))))
    u.assume(forall(y, all_(i, I(0), NB(y), and_(rel(bwd(y, i), y), eq(bi(y, bwd(y, i)), i)))))
    u.assume(forall(x, forall(y, imp(rel(x, y), and_(between(I(0), fi(x, y), NF(x)), eq(fwd(x, fi(x, y)), y), between(I(0), bi(y, x), NB(y)), eq(bwd(y, bi(y, x)), x))))))
def entries(u):
    """sparse entries: strictly increasing coordinates, the others zero"""
    x, j, d = fresh('x', 'I'), fresh('j', 'I'), fresh('d', 'I'); n = sym('length', 'I'); at = lambda x, d: app('nzpos', 'I', x, d)
    u.assume(forall(x, ge(NB(x), I(0)))); u.assume(forall(x, forall(d, ge(ent(x, d), I(0)))))
    u.assume(forall(x, all_(j, I(0), NB(x), and_(between(I(0), nzi(x, j), n), eq(at(x, nzi(x, j)), j)))))
    u.assume(forall(x, all_(d, I(0), n, or_(eq(ent(x, d), I(0)), and_(between(I(0), at(x, d), NB(x)), eq(nzi(x, at(x, d)), d))))))
class Lim:
    def call(self, ex, st, args):
        v = args[0]; v = ex.load(st, v) if isinstance(v, Ref) else v
        return lim(v.f['$id'])
def neighbours(u):
    def mk(n, f):
        def h(ex, st, c):
            x = ex.val(st, c.args[0]).f['$id']; w = fresh('w', 'I'); return Vec(n(x), lift(mi(f(x, w)), w))
        return h
    u.contract(N + 'MultiIndexNeighborhood::ForwardNeighbors', mk(NF, fwd)); u.contract(N + 'MultiIndexNeighborhood::BackwardNeighbors', mk(NB, bwd))
class F:
    """a set in a state"""
    def __init__(self, v):
        f = self.f = v.f; at = lambda vec, i: unlift(vec.e, i)
        self.G = f['allMultis'].n; self.A = f['active2global'].n
        self.id = lambda g: at(f['allMultis'], g).f['$id']
        self.a2g = lambda a: at(f['active2global'], a)
        self.g2a = lambda g: at(f['global2active'], g)
        self.inn = lambda g, h: lapp(at(f['inEdges'], g).m, h, 'B')
        self.out = lambda g, h: lapp(at(f['outEdges'], g).m, h, 'B')
        self.mo = lambda d: at(f['maxOrders'], d)
        self.dom = lambda x: lapp(f['multi2global'].d, x, 'B')
        self.val = lambda x: unlift(f['multi2global'].v, x)
    def act(self, g): return ge(self.g2a(g), I(0))
    def active(self, x): return and_(self.dom(x), self.act(self.val(x)))
    def known(self, g): return between(I(0), g, self.G)
    def adm(self, x):
        j = fresh('j', 'I'); return and_(lim(x), or_(self.active(x), all_(j, I(0), NB(x), self.active(bwd(x, j)))))
    def numbering(self):
        g, a, x = fresh('g', 'I'), fresh('a', 'I'), fresh('x', 'I'); f = self.f
        return [('sizes agree', and_(eq(f['global2active'].n, self.G), eq(f['inEdges'].n, self.G), eq(f['outEdges'].n, self.G), ge(self.G, I(0)), ge(self.A, I(0)))),
                ('every stored multi-index is found at its place', all_(g, I(0), self.G, and_(self.dom(self.id(g)), eq(self.val(self.id(g)), g)))),
                ('what is found is stored', forall(x, imp(self.dom(x), and_(self.known(self.val(x)), eq(self.id(self.val(x)), x))))),
                ('active numbers refer to stored multi-indices', all_(a, I(0), self.A, and_(self.known(self.a2g(a)), eq(self.g2a(self.a2g(a)), a)))),
                ('the number of an active multi-index refers back to it', all_(g, I(0), self.G, and_(ge(self.g2a(g), I(-1)), lt(self.g2a(g), self.A), imp(self.act(g), eq(self.a2g(self.g2a(g)), g)))))]
    def edges(self, xf=None, xt=None):
        """xf: stored multi-index whose edges may still be incomplete although it is active; xt: one whose incoming edges may be incomplete"""
        g, h, i = fresh('g', 'I'), fresh('h', 'I'), fresh('i', 'I'); id = self.id
        nx = lambda c, *xs: [] if c is None else [eq(x, c) for x in xs]
        return [('edges follow the relation', all_(g, I(0), self.G, forall(h, imp(self.out(g, h), and_(self.known(h), rel(id(g), id(h)), lim(id(g)), lim(id(h)), self.inn(h, g)))))),
                ('edges are recorded at both ends', all_(g, I(0), self.G, forall(h, imp(self.inn(g, h), and_(self.known(h), self.out(h, g)))))),
                ('active multi-indices pass the limiter', all_(g, I(0), self.G, imp(self.act(g), lim(id(g))))),
                ('active multi-indices are linked to their stored forward neighbours', all_(g, I(0), self.G, all_(h, I(0), self.G, or_(not_(self.act(g)), not_(rel(id(g), id(h))), not_(lim(id(h))), self.out(g, h), *(nx(xf, g) + nx(xt, h)))))),
                ('forward neighbours of active multi-indices are stored', all_(g, I(0), self.G, all_(i, I(0), NF(id(g)), or_(not_(self.act(g)), not_(lim(fwd(id(g), i))), self.dom(fwd(id(g), i)), *nx(xf, g)))))]
    def inv(self, **kw): return self.numbering() + self.edges(**kw)
def the_set(u, f, name='this', edges=True, **kw):
    this = u.obj(f, name) if not isinstance(f, Ref) else f
    G, A, n = u.int(name + '.G'), u.int(name + '.A'), u.int('length', 1); w, x, m = fresh('w', 'I'), fresh('x', 'I'), fresh('m', 'I')
    sets = lambda s: Vec(G, SetV(lam(w, lam(m, app(name + s, 'B', w, m))), lam(w, app(name + s + '.card', 'I', w))))
    u.setf(this, allMultis=Vec(G, Rec(MI_T, {'$id': lam(w, app(name + '.id', 'I', w))})), limiter=Opq('function', Lim()), length=n,
           active2global=Vec(A, fun(name + '.a2g', 'I', 'I')), global2active=Vec(G, fun(name + '.g2a', 'I', 'I')), inEdges=sets('.in'), outEdges=sets('.out'),
           maxOrders=Vec(n, fun(name + '.mo', 'I', 'I')), multi2global=MapV(lam(x, app(name + '.dom', 'B', x)), lam(x, app(name + '.val', 'I', x)), u.int(name + '.mapn')))
    neighbours(u); relation(u); g = fresh('g', 'I')
    for s in ('.in', '.out'): u.assume(all_(g, I(0), G, ge(app(name + s + '.card', 'I', g), I(0))))
    S = F(u.load(this))
    u.assume(le(S.G, I(2**30)))
    for _, t in S.numbering() + (S.edges(**kw) if edges else []): u.assume(t)
    return this, S
def overload(u, name, *tys):
    """the overload of a member function with the given parameter types"""
    return u.fn(M + name, pred=lambda f: [t.rsplit('::', 1)[-1] if 'std::' not in t else t.split('<')[0] for t in u.sig(f)] == list(tys))
def iff(a, b): return and_(or_(not_(a), b), or_(not_(b), a))
def truth(ex, st, formula):
    """a truth value defined by a formula over the present state"""
    nm, args = libmodel.closed('truth', lam(fresh('w', 'I'), formula)); b = app(nm, 'B', *args); ex.nfacts += 1; st.assume(iff(b, formula)); return b
def named(u, formula, *vs):
    nm, args = libmodel.closed('truth', lam(fresh('w', 'I'), formula)); b = app(nm, 'B', *args); return b
def expandable(S, x):
    i = fresh('i', 'I'); y = fwd(x, i); return any_(i, I(0), NF(x), and_(not_(S.active(y)), S.adm(y)))
def admissible_contract(u):
    def h(ex, st, c):
        S = F(ex.val(st, c.obj)); g = ex.val(st, c.args[0]); ex.oblige('precondition', st, S.known(g), c.loc, 'the multi-index is stored'); return truth(ex, st, S.adm(S.id(g)))
    u.contract(overload(u, 'IsAdmissible', 'int')['id'], h)
def expandable_contract(u):
    def h(ex, st, c):
        S = F(ex.val(st, c.obj)); a = ex.val(st, c.args[0]); ex.oblige('precondition', st, between(I(0), a, S.A), c.loc, 'the number is that of an active multi-index'); return truth(ex, st, expandable(S, S.id(S.a2g(a))))
    u.contract(overload(u, 'IsExpandable', 'int')['id'], h)
# ---- growth of a set: what every operation that adds or activates multi-indices preserves
class Fresh_:
    """an arbitrary later state of a set; arbitrary functions are named so that inside a loop they depend on the iteration"""
    @staticmethod
    def fn(sort, n):
        loops._uid[0] += 1; nm = 'U#%d' % loops._uid[0]; vs = [fresh('w', 'I') for _ in range(n)]; t = app(nm, sort, *vs)
        for v in reversed(vs): t = lam(v, t)
        return t
def later(v, G=None, A=None, nodes=True, activity=True):
    """the record with the parts that may change replaced: the stored multi-indices (nodes), which are active (activity), and the edges"""
    f = Fresh_.fn; G0, A0 = v.f['allMultis'].n, v.f['active2global'].n; G = G if G is not None else (fresh('G', 'I') if nodes else G0); A = A if A is not None else (fresh('A', 'I') if activity else A0)
    sets = lambda: Vec(G, SetV(f('B', 2), f('I', 1)))
    v = v.with_('inEdges', sets()).with_('outEdges', sets())
    if nodes: v = v.with_('allMultis', Vec(G, Rec(MI_T, {'$id': f('I', 1)}))).with_('multi2global', MapV(f('B', 1), f('I', 1), fresh('mapn', 'I')))
    if nodes or activity: v = v.with_('global2active', Vec(G, f('I', 1)))
    if activity: v = v.with_('active2global', Vec(A, f('I', 1))).with_('maxOrders', Vec(v.f['maxOrders'].n, f('I', 1)))
    return v
def sane(S):
    """the numbering is consistent, edges refer to stored multi-indices, and the maximum degrees are those of the active ones"""
    g, h, a, d = fresh('g', 'I'), fresh('h', 'I'), fresh('a', 'I'), fresh('d', 'I')
    return S.numbering() + [('edges refer to stored multi-indices', all_(g, I(0), S.G, forall(h, and_(imp(S.out(g, h), S.known(h)), imp(S.inn(g, h), S.known(h)))))),
        ('no active multi-index exceeds the reported maximum degrees', all_(a, I(0), S.A, all_(d, I(0), S.f['length'], le(ent(S.id(S.a2g(a)), d), S.mo(d))))),
        ('the reported maximum degrees are reached', all_(d, I(0), S.f['length'], or_(eq(S.mo(d), I(0)), any_(a, I(0), S.A, eq(ent(S.id(S.a2g(a)), d), S.mo(d))))))]
def grown(S0, S1, activity=True):
    """S1 extends S0: nothing moves, new multi-indices are inactive unless activity may change"""
    g, a, x = fresh('g', 'I'), fresh('a', 'I'), fresh('x', 'I')
    r = [('nothing is removed', and_(le(S0.G, S1.G), le(S0.A, S1.A) if activity else eq(S1.A, S0.A), eq(S1.f['maxOrders'].n, S0.f['maxOrders'].n))),
         ('stored multi-indices stay in place', all_(g, I(0), S0.G, eq(S1.id(g), S0.id(g)))),
         ('active multi-indices keep their numbers', all_(a, I(0), S0.A, eq(S1.a2g(a), S0.a2g(a))))]
    if activity: return r + [('active multi-indices stay active', all_(g, I(0), S0.G, imp(S0.act(g), eq(S1.g2a(g), S0.g2a(g)))))]
    return r + [('activity does not change', all_(g, I(0), S0.G, eq(S1.g2a(g), S0.g2a(g)))), ('new multi-indices are inactive', all_(g, S0.G, S1.G, eq(S1.g2a(g), I(-1))))]
def holds(fs): return [t for _, t in fs]
def grow_contract(ex, st, c, extra=lambda S0, S1: [], pre=(), **kw):
    """replaces the object by an arbitrary later state which extends the present one"""
    v0 = ex.val(st, c.obj); S0 = F(v0)
    for t, what in pre: ex.oblige('precondition', st, t, c.loc, what)
    for nm, t in sane(S0): ex.oblige('precondition', st, t, c.loc, nm)
    act = kw.get('activity', True); v1 = later(v0, **kw); S1 = F(v1); ex.store(st, c.obj, v1); ex.nfacts += 1
    for t in holds(sane(S1)) + holds(grown(S0, S1, act)) + list(extra(S0, S1)): st.assume(t)
    return S0, S1
def grow_posts(u, o, this, S0, activity=True, what=''):
    S1 = F(u.load(this, o.st))
    for nm, t in grown(S0, S1, activity) + sane(S1): u.post(nm, t, st=o.st)
    return S1
