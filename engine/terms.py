"""Hash-consed term language of the verifier.

Sorts: 'I' (mathematical integers), 'R' (reals, standing for double), 'B', 'L' (lambda / array values) and named
opaque sorts.  Integer and real arithmetic is kept in polynomial normal form over atoms; binders (finite sums, products,
bounded quantifiers, lambdas) are canonical up to bound-variable names, so alpha-equivalent terms are the same object.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(100000)

class T:
    __slots__ = ('op', 'a', 's', 'id', 'h', 'fv', '_hash')
    def __repr__(self): return show(self)
    def __hash__(self): return self._hash
    def __eq__(self, o): return self is o

_tab = {}
_cnt = [0]

def mk(op, a, s):
    key = (op, a, s)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op; t.a = a; t.s = s
        _cnt[0] += 1
        t.id = _cnt[0]
        t._hash = t.id * 2654435761 & 0x7fffffffffff
        h = 0
        for x in kids(t):
            if x.h > h: h = x.h
        t.h = h + 1 if op in BINDERS else h
        t.fv = None
        _tab[key] = t
    return t

BINDERS = {'sum', 'prod', 'all', 'any', 'lam', 'last', 'first'}

def kids(t):
    op = t.op
    if op == 'poly':
        r = []
        for m, c in t.a:
            for x, e in m: r.append(x)
        return r
    if op in ('num', 'sym', 'bv', 'true', 'false'): return ()
    if op == 'app': return t.a[1:]
    if op in BINDERS: return [x for x in t.a if isinstance(x, T)]
    return [x for x in t.a if isinstance(x, T)]

# ---------------------------------------------------------------- atoms
TRUE = mk('true', (), 'B'); FALSE = mk('false', (), 'B')
def B(b): return TRUE if b else FALSE
def num(v, s='I'):
    v = Fraction(v)
    return mk('num', (v,), s)
def I(v): return num(v, 'I')
def R(v): return num(v, 'R')
def sym(name, s): return mk('sym', (name,), s)
import os as _os
_fresh = [int(_os.environ.get("MPX_SHIFT", "0"))]      # testing: other names, same proofs
def fresh(name, s):
    _fresh[0] += 1
    return sym('%s!%d' % (name, _fresh[0]), s)
def isnum(t): return t.op == 'num'
def val(t): return t.a[0]

# ---------------------------------------------------------------- polynomials
def pdict(t):
    """term -> {monomial: coef}"""
    if t.op == 'num':
        return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.op == 'poly': return dict(t.a)
    return {((t, 1),): Fraction(1)}

def mkpoly(d, s):
    d = {m: c for m, c in d.items() if c != 0}
    if not d: return num(0, s)
    if len(d) == 1:
        (m, c), = d.items()
        if m == (): return num(c, s)
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: (len(mc[0]), tuple((x.id, e) for x, e in mc[0]))))
    return mk('poly', items, s)

def add(*ts):
    s = ts[0].s
    d = {}
    for t in ts:
        assert t.s == s, ('sort mismatch in add', [(x, x.s) for x in ts])
        for m, c in pdict(t).items():
            d[m] = d.get(m, 0) + c
    return mkpoly(d, s)
def scale(t, k):
    return mkpoly({m: c * k for m, c in pdict(t).items()}, t.s)
def neg(t): return scale(t, -1)
def sub(a, b): return add(a, neg(b))

def mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = {}
    for x, e in m1: d[x] = d.get(x, 0) + e
    for x, e in m2: d[x] = d.get(x, 0) + e
    out = []
    # cancel x * inv(x)
    for x in list(d):
        if x.op == 'app' and x.a[0] == 'inv':
            y = x.a[1]
            if y in d:
                k = min(d[x], d[y]); d[x] -= k; d[y] -= k
    # indicator idempotence handled in ite
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda p: p[0].id))

MAXTERMS = 4000
def mul(*ts):
    s = ts[0].s
    for t in ts: assert t.s == s, ('sort mismatch in mul', [(x, x.s) for x in ts])
    d = {(): Fraction(1)}
    for t in ts:
        p = pdict(t)
        if len(p) * len(d) > MAXTERMS: raise Overflow('polynomial too large')
        n = {}
        for m1, c1 in d.items():
            for m2, c2 in p.items():
                m = mmul(m1, m2)
                n[m] = n.get(m, 0) + c1 * c2
        d = n
    return mkpoly(d, s)
class Overflow(Exception): pass

def inv(t):
    if isnum(t):
        if val(t) != 0: return R(1 / val(t))
        return app('inv', 'R', t)
    p = pdict(t)
    if len(p) == 1:
        (m, c), = p.items()
        r = R(1 / c)
        for x, e in m:
            if x.op == 'app' and x.a[0] == 'inv': f = x.a[1]
            else: f = mk('app', ('inv', x), 'R')
            for _ in range(e): r = mul(r, f)
        return r
    # normalise leading coefficient
    items = t.a
    lead = items[0][1]
    if lead != 1:
        return scale(mk('app', ('inv', scale(t, 1 / lead)), 'R'), 1 / lead)
    return mk('app', ('inv', t), 'R')
def div(a, b):
    assert a.s == 'R' and b.s == 'R'
    return mul(a, inv(b))

def powi(t, n):
    r = num(1, t.s)
    for _ in range(n): r = mul(r, t)
    return r

def app(f, s, *args):
    return mk('app', (f,) + args, s)

def toreal(t):
    if t.s == 'R': return t
    if t.s == 'B': return ite(t, R(1), R(0))
    if t.op == 'num': return R(val(t))
    if t.op == 'ite': return ite(t.a[0], toreal(t.a[1]), toreal(t.a[2]))
    d = {}
    for m, c in pdict(t).items():
        m2 = tuple(sorted(((toreal1(x), e) for x, e in m), key=lambda p: p[0].id))
        d[m2] = d.get(m2, 0) + c
    return mkpoly(d, 'R')
def toreal1(x):
    if x.op == 'ite': return ite(x.a[0], toreal(x.a[1]), toreal(x.a[2]))
    return mk('app', ('toreal', x), 'R')

def idiv(a, b):
    if isnum(a) and isnum(b) and val(b) != 0:
        q = abs(val(a)) // abs(val(b))
        return I(q if (val(a) >= 0) == (val(b) > 0) else -q)
    if isnum(b) and val(b) == 1: return a
    return app('div', 'I', a, b)
def imod(a, b):
    if isnum(a) and isnum(b) and val(b) != 0:
        return sub(a, mul(idiv(a, b), b))
    if isnum(b) and val(b) == 1: return I(0)
    return app('mod', 'I', a, b)

# ---------------------------------------------------------------- booleans
def not_(t):
    if t is TRUE: return FALSE
    if t is FALSE: return TRUE
    if t.op == 'not': return t.a[0]
    if t.op == 'le':  # p<=0 (int) -> p>=1 -> 1-p<=0
        if t.a[0].s == 'I': return le0(sub(I(1), t.a[0]))
        return lt0(neg(t.a[0]))
    if t.op == 'lt': return le0(neg(t.a[0]))
    return mk('not', (t,), 'B')
def _flat(op, ts):
    out = []
    for t in ts:
        if t.op == op: out.extend(t.a)
        else: out.append(t)
    return out
def and_(*ts):
    s = []
    seen = set()
    for t in _flat('and', ts):
        if t is TRUE: continue
        if t is FALSE: return FALSE
        if t in seen: continue
        seen.add(t); s.append(t)
    for t in s:
        if not_(t) in seen: return FALSE
    # absorption:  a and (a or b) = a ; a and (not a or b) -> a and b
    ch = False
    for i, t in enumerate(s):
        if t.op == 'or':
            if any(x in seen for x in t.a): s[i] = TRUE; ch = True
            elif any(not_(x) in seen for x in t.a):
                s[i] = or_(*[x for x in t.a if not_(x) not in seen]); ch = True
    if ch: return and_(*s)
    if not s: return TRUE
    if len(s) == 1: return s[0]
    return mk('and', tuple(sorted(s, key=lambda t: t.id)), 'B')
def or_(*ts):
    s = []
    seen = set()
    for t in _flat('or', ts):
        if t is FALSE: continue
        if t is TRUE: return TRUE
        if t in seen: continue
        seen.add(t); s.append(t)
    for t in s:
        if not_(t) in seen: return TRUE
    ch = False
    for i, t in enumerate(s):
        if t.op == 'and':
            if any(x in seen for x in t.a): s[i] = FALSE; ch = True
            elif any(not_(x) in seen for x in t.a):
                s[i] = and_(*[x for x in t.a if not_(x) not in seen]); ch = True
    if ch: return or_(*s)
    # factor common conjuncts
    if len(s) > 1 and all(t.op == 'and' for t in s):
        com = set(s[0].a)
        for t in s[1:]: com &= set(t.a)
        if com:
            return and_(*(list(com) + [or_(*[and_(*[x for x in t.a if x not in com]) for t in s])]))
    if not s: return FALSE
    if len(s) == 1: return s[0]
    return mk('or', tuple(sorted(s, key=lambda t: t.id)), 'B')
def imp(a, b): return or_(not_(a), b)

def _norm(p):
    """divide polynomial by positive rational so that coefs are coprime integers"""
    from math import gcd
    d = pdict(p)
    cs = [c for m, c in d.items()]
    den = 1
    for c in cs: den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for m, c in d.items():
        if p.s == 'I' and m == (): continue
        g = gcd(g, int(c * den))
    if g == 0: g = 1
    return d, Fraction(den, g)
def le0(p):
    if isnum(p): return B(val(p) <= 0)
    if p.op == 'ite': return ite(p.a[0], le0(p.a[1]), le0(p.a[2]))
    d, k = _norm(p)
    if p.s == 'I':
        import math
        n = {m: c * k for m, c in d.items()}
        if () in n:
            c = n[()]
            n[()] = Fraction(math.ceil(c))
        return mk('le', (mkpoly(n, 'I'),), 'B')
    return mk('le', (scale(p, k),), 'B')
def lt0(p):
    if isnum(p): return B(val(p) < 0)
    if p.op == 'ite': return ite(p.a[0], lt0(p.a[1]), lt0(p.a[2]))
    if p.s == 'I': return le0(add(p, I(1)))
    d, k = _norm(p)
    return mk('lt', (scale(p, k),), 'B')
def _liftite(f, a, b):
    if a.op == 'ite' and isnum(a.a[1]) and isnum(a.a[2]) and isnum(b): return ite(a.a[0], f(a.a[1], b), f(a.a[2], b))
    if b.op == 'ite' and isnum(b.a[1]) and isnum(b.a[2]) and isnum(a): return ite(b.a[0], f(a, b.a[1]), f(a, b.a[2]))
    return None
def le(a, b): return _liftite(le, a, b) or le0(sub(a, b))
def lt(a, b): return _liftite(lt, a, b) or lt0(sub(a, b))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)
def eq(a, b):
    if a is b: return TRUE
    assert a.s == b.s, ('eq sort', a, a.s, b, b.s)
    r = _liftite(eq, a, b)
    if r is not None: return r
    if a.s in ('I', 'R'):
        p = sub(a, b)
        if isnum(p): return B(val(p) == 0)
        d, k = _norm(p)
        q = scale(p, k)
        if q.op == 'poly':
            lead = q.a[-1][1]
            if lead < 0: q = neg(q)
            if a.s == 'I' and q.op == 'poly':
                c = dict(q.a).get((), Fraction(0))
                if c.denominator != 1: return FALSE
        return mk('eq', (q, num(0, a.s)), 'B')
    if a.s == 'B':
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
        if not_(a) is b: return FALSE
    if a.id > b.id: a, b = b, a
    return mk('eq', (a, b), 'B')
def ne(a, b): return not_(eq(a, b))

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    assert a.s == b.s, ('ite sort', a, a.s, b, b.s)
    if c.op == 'not': return ite(c.a[0], b, a)
    if a.s == 'B':
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
        if b is FALSE: return and_(c, a)
    if a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if b.op == 'ite' and b.a[0] is c: b = b.a[2]
    nc = not_(c)
    if a.op == 'ite' and a.a[0] is nc: a = a.a[2]
    if b.op == 'ite' and b.a[0] is nc: b = b.a[1]
    if a is b: return a
    if c.op == 'eq' and a.s in ('I', 'R') and c.a[0].s == a.s and a.op in ('num', 'poly', 'app', 'sym') and b.op in ('num', 'poly', 'app', 'sym'):
        d, e = sub(c.a[0], c.a[1]), sub(b, a)           # ite(x == 0, 0, x) is x
        if d is e or d is neg(e): return b
    if b.op == 'ite' and b.a[1] is a: return ite(or_(c, b.a[0]), a, b.a[2])
    if a.op == 'ite' and a.a[2] is b: return ite(and_(c, a.a[0]), a.a[1], b)
    if b.op == 'ite' and b.a[2] is a: return ite(and_(not_(c), b.a[0]), b.a[1], a)
    # c implies inner condition
    if b.op == 'ite' and c.op == 'and' and b.a[0] in c.a:
        pass
    if a.op == 'ite' and c.op == 'and' and a.a[0] in c.a: return ite(c, a.a[1], b)
    if nc.op == 'and' and b.op == 'ite' and b.a[0] in nc.a: return ite(c, a, b.a[1])
    if c.op == 'and' and a.op == 'ite' and not_(a.a[0]) in c.a: return ite(c, a.a[2], b)
    if a.op == 'lam' and b.op == 'lam':
        v = fresh('i', lamvs(a)); 
        return lam(v, ite(c, lapp(a, v), lapp(b, v)))
    if nc.id < c.id and c.op in ('le', 'lt'):  # canonical orientation
        return mk('ite', (nc, b, a), a.s)
    return mk('ite', (c, a, b), a.s)
def max_(a, b): return ite(ge(a, b), a, b)
def min_(a, b): return ite(le(a, b), a, b)

# ---------------------------------------------------------------- binders
def bv(h, s): return mk('bv', (h,), s)

def freevars(t):
    """set of sym and bv terms occurring (bv only if not bound)"""
    if t.fv is not None: return t.fv
    op = t.op
    if op == 'sym': r = frozenset([t])
    elif op == 'bv': r = frozenset([t])
    else:
        r = set()
        for x in kids(t): r |= freevars(x)
        if op in BINDERS:
            r.discard(t.a[-1])
        r = frozenset(r)
    t.fv = r
    return r
def occurs(v, t): return v in freevars(t)

def subst(t, m, memo=None):
    """simultaneous substitution of sym/bv terms (values must not contain dangling bv of lower height)"""
    if not m: return t
    if memo is None: memo = {}
    keys = frozenset(m)
    def go(t):
        r = memo.get(t)
        if r is not None: return r
        if not (freevars(t) & keys): return t
        op = t.op
        if t in m: r = m[t]
        elif op == 'poly':
            acc = {}
            r = None
            parts = []
            for mo, c in t.a:
                f = [num(c, t.s)]
                for x, e in mo:
                    y = go(x)
                    for _ in range(e): f.append(y)
                parts.append(mul(*f))
            r = add(*parts)
        elif op == 'app':
            r = rebuild_app(t, [go(x) for x in t.a[1:]])
        elif op in BINDERS:
            v = t.a[-1]
            args = [go(x) if isinstance(x, T) else x for x in t.a[:-1]]
            r = rebuild_binder(op, args, v)
        elif op == 'not': r = not_(go(t.a[0]))
        elif op == 'and': r = and_(*[go(x) for x in t.a])
        elif op == 'or': r = or_(*[go(x) for x in t.a])
        elif op == 'le': r = le0(go(t.a[0]))
        elif op == 'lt': r = lt0(go(t.a[0]))
        elif op == 'eq': r = eq(go(t.a[0]), go(t.a[1]))
        elif op == 'ite': r = ite(go(t.a[0]), go(t.a[1]), go(t.a[2]))
        else: raise Exception('subst ' + op)
        memo[t] = r
        return r
    return go(t)

def rebuild_app(t, args):
    f = t.a[0]
    if f == 'inv': return inv(args[0])
    if f == 'toreal': return toreal(args[0])
    if f == 'div': return idiv(*args)
    if f == 'mod': return imod(*args)
    if f == '@': return lapp(args[0], args[1], t.s)
    if f in REBUILD: return REBUILD[f](*args)
    return mk('app', (f,) + tuple(args), t.s)
REBUILD = {}

def rebuild_binder(op, args, v):
    # open with a fresh symbol, rebuild with smart constructor
    # every binder: args = (..., body); body-like args are those which may contain v
    w = fresh('b', v.s)
    if op == 'lam':
        return lam(w, subst(args[0], {v: w}))
    if op in ('sum', 'prod', 'all', 'any', 'first'):
        lo, hi, body = args
        return binder(op, w, lo, hi, subst(body, {v: w}))
    if op == 'last':
        lo, hi, g, e, d = args
        return last(w, lo, hi, subst(g, {v: w}), subst(e, {v: w}), d)
    raise Exception(op)

def _close(op, pre, bodies, v, s, post=()):
    h = max([x.h for x in bodies] + [x.h for x in pre] + [x.h for x in post]) + 1
    b = bv(h, v.s)
    m = {v: b}
    # NB pre/post args do not contain v
    return mk(op, tuple(pre) + tuple(subst(x, m) for x in bodies) + tuple(post) + (b,), s)

def subst_close(x, m): return subst(x, m)

def lam(v, body):
    if body.op == 'app' and body.a[0] == '@' and body.a[2] is v and not occurs(v, body.a[1]):
        return body.a[1]  # eta
    return _close('lam', (), (body,), v, 'L')
LAMRES = {}
def lamvs(l): 
    return l.a[-1].s if l.op == 'lam' else 'I'
def lapp(f, x, s=None):
    """apply lambda value f to x"""
    if f.op == 'lam':
        assert f.a[-1].s == x.s, ('lapp sort', f, x)
        return subst(f.a[0], {f.a[-1]: x})
    if f.op == 'ite': return ite(f.a[0], lapp(f.a[1], x, s), lapp(f.a[2], x, s))
    if f.op == 'sym':
        s = s or SYMRES[f]
        if s == 'L': raise Exception('lapp nested sym')
    return mk('app', ('@', f, x), s or 'R')
SYMRES = {}
def fun(name, *sorts_res):
    """an uninterpreted array value  lam i1..in. name(i1..in);  last sort is the result"""
    vs = [fresh('i', s) for s in sorts_res[:-1]]
    t = app(name, sorts_res[-1], *vs)
    for v in reversed(vs): t = _close('lam', (), (t,), v, 'L')
    return t
def lapps(f, *xs):
    for x in xs: f = lapp(f, x)
    return f

def open_binder(t, w=None):
    v = t.a[-1]
    w = w or fresh('k', v.s)
    return w, [subst(x, {v: w}) if isinstance(x, T) else x for x in t.a[:-1]]

def conj(t): return list(t.a) if t.op == 'and' else [t]
def disj(t): return list(t.a) if t.op == 'or' else [t]

def solve_eq(c, v):
    """if c is an equation that determines v (v = e, e free of v, coefficient +-1), return e"""
    if c.op != 'eq' or c.a[0].s != v.s: return None
    if v.s in ('I', 'R'):
        p = pdict(c.a[0])
        k = p.get(((v, 1),))
        if k is None or (v.s == 'I' and abs(k) != 1): return None
        rest = {m: x for m, x in p.items() if m != ((v, 1),)}
        r = mkpoly({m: -x / k for m, x in rest.items()}, v.s)
        if occurs(v, r): return None
        return r
    a, b = c.a
    if a is v and not occurs(v, b): return b
    if b is v and not occurs(v, a): return a
    return None

def inrange(lo, x, hi): return and_(le(lo, x), lt(x, hi))

def binder(op, v, lo, hi, body):
    """sum/prod/all/any/first over v in [lo,hi)"""
    if op == 'sum': return sum_(v, lo, hi, body)
    if op == 'prod': return prod_(v, lo, hi, body)
    if op == 'all': return all_(v, lo, hi, body)
    if op == 'any': return any_(v, lo, hi, body)
    if op == 'first': return first_(v, lo, hi, body)
    raise Exception(op)

NE = object()
def _empty(lo, hi):
    d = sub(hi, lo)
    return isnum(d) and val(d) <= 0
def all_(v, lo, hi, body):
    """lo/hi may be None (unbounded)"""
    lo = _lim(lo); hi = _lim(hi)
    if lo is not None and hi is not None:
        d = sub(hi, lo)
        if isnum(d) and 0 <= val(d) <= 4:
            return and_(*[subst(body, {v: add(lo, I(k))}) for k in range(int(val(d)))])
        if isnum(d) and val(d) < 0: return TRUE
    if body is TRUE: return TRUE
    if lo is not None and not (lo.op == 'num' and lo.a[0] == 0) and v.s == 'I':
        w = fresh('k', 'I')
        return all_(w, num(0, 'I'), None if hi is None else sub(hi, lo), subst(body, {v: add(w, lo)}))
    if not occurs(v, body):
        if lo is not None and hi is not None: return or_(le(hi, lo), body)
        return body
    if body.op == 'and': return and_(*[all_(v, lo, hi, x) for x in body.a])
    # all v. v!=e or rest
    for x in disj(body):
        nx = not_(x)
        e = solve_eq(nx, v)
        if e is not None:
            rest = or_(*[y for y in disj(body) if y is not x])
            g = TRUE
            if lo is not None: g = and_(g, le(lo, e))
            if hi is not None: g = and_(g, lt(e, hi))
            return imp(g, subst(rest, {v: e}))
    pre = (lo if lo is not None else NOLIM, hi if hi is not None else NOLIM)
    return _close('all', pre, (body,), v, 'B')
NOLIM = mk('sym', ('<nolim>',), 'I')
def _lim(x): return None if x is None or x is NOLIM else x
def any_(v, lo, hi, body): 
    t = all_(v, lo, hi, not_(body))
    return not_(t)
def forall(v, body): return all_(v, None, None, body)
def exists(v, body): return not_(all_(v, None, None, not_(body)))

def _split_factors(m, v):
    inn = tuple((x, e) for x, e in m if occurs(v, x))
    out = tuple((x, e) for x, e in m if not occurs(v, x))
    return inn, out

def count_(lo, hi):
    """max(hi-lo,0) as an integer"""
    return max_(sub(hi, lo), I(0))

def sum_(v, lo, hi, body):
    s = body.s
    d = sub(hi, lo)
    if isnum(d):
        if val(d) <= 0: return num(0, s)
        if val(d) <= 4:
            return add(*[subst(body, {v: add(lo, I(k))}) for k in range(int(val(d)))])
    if not (lo.op == 'num' and lo.a[0] == 0):
        w = fresh('k', 'I')
        return sum_(w, num(0, 'I'), sub(hi, lo), subst(body, {v: add(w, lo)}))
    if body.op == 'ite': 
        return _sum_ite(v, lo, hi, body, {})
    out = num(0, s)
    for m, c in pdict(body).items():
        inn, o = _split_factors(m, v)
        f = mkpoly({o: c}, s)
        if not inn:
            n = count_(lo, hi)
            if s == 'R': n = toreal(n)
            out = add(out, mul(f, n)); continue
        out = add(out, mul(f, _sum_mono(v, lo, hi, inn, s)))
    return out
def _sum_mono(v, lo, hi, inn, s):
    # inn: monomial whose atoms all contain v
    for x, e in inn:
        if x.op == 'ite' and not occurs(v, x.a[0]):
            rest = mkpoly({tuple(p for p in inn if p[0] is not x): Fraction(1)}, s)
            return ite(x.a[0], sum_(v, lo, hi, mul(powi(x.a[1], e), rest)), sum_(v, lo, hi, mul(powi(x.a[2], e), rest)))
    for x, e in inn:
        if x.op == 'ite':
            rest = mkpoly({tuple(p for p in inn if p[0] is not x): Fraction(1)}, s)
            return _sum_ite(v, lo, hi, mk('ite', (x.a[0], mul(powi(x.a[1], e), rest), mul(powi(x.a[2], e), rest)), s), None)
    body = mkpoly({inn: Fraction(1)}, s)
    return _close('sum', (lo, hi), (body,), v, s)
def _find_eq(c, v):
    for x in conj(c):
        e = solve_eq(x, v)
        if e is not None: return e, and_(*[y for y in conj(c) if y is not x])
    return None
def _bound(x, v):
    """x is  v<=e  -> ('hi', e+1);  v>=e -> ('lo', e)"""
    if x.op != 'le' or x.a[0].s != 'I': return None
    p = pdict(x.a[0]); k = p.get(((v, 1),))
    if k is None or abs(k) != 1: return None
    rest = mkpoly({m: c for m, c in p.items() if m != ((v, 1),)}, 'I')
    if occurs(v, rest): return None
    if k == 1: return ('hi', add(neg(rest), I(1)))
    return ('lo', rest)
def _sum_ite(v, lo, hi, t, _):
    c, a, b = t.a
    s = t.s
    zero = num(0, s)
    if not occurs(v, c): return ite(c, sum_(v, lo, hi, a), sum_(v, lo, hi, b))
    r = _find_eq(c, v)
    if r is not None:
        e, rest = r
        m = {v: e}
        delta = subst(sub(a, b), m)
        g = and_(inrange(lo, e, hi), subst(rest, m))
        return add(sum_(v, lo, hi, b), ite(g, delta, zero))
    r = _find_eq(not_(c), v)
    if r is not None:
        return sum_(v, lo, hi, ite(not_(c), b, a)) if False else _sum_ite(v, lo, hi, mk('ite', (not_(c), b, a), s), None)
    # conjuncts of the guard which do not depend on v move out
    for (g, x, y) in ((c, a, b), (not_(c), b, a)):
        if isnum(y) and val(y) == 0 and g.op == 'and':
            A = [q for q in g.a if not occurs(v, q)]
            if A:
                return ite(and_(*A), sum_(v, lo, hi, ite(and_(*[q for q in g.a if occurs(v, q)]), x, zero)), zero)
    # tighten the range when the guard bounds v and the other branch is zero
    for (g, x, y) in ((c, a, b), (not_(c), b, a)):
        if y is zero or isnum(y) and val(y) == 0:
            for q in conj(g):
                bd = _bound(q, v)
                if bd is not None:
                    rest = and_(*[z for z in conj(g) if z is not q])
                    inner = x if rest is TRUE else ite(rest, x, zero)
                    if bd[0] == 'hi':
                        h2 = min_(hi, bd[1])
                        if h2 is bd[1] or h2 is hi: return sum_(v, lo, h2, inner)
                        return ite(le(bd[1], hi), sum_(v, lo, bd[1], inner), sum_(v, lo, hi, inner))
                    l2 = max_(lo, bd[1])
                    if l2 is lo or l2 is bd[1]: return sum_(v, l2, hi, inner)
                    return ite(ge(bd[1], lo), sum_(v, bd[1], hi, inner), sum_(v, lo, hi, inner))
    if not (isnum(b) and val(b) == 0) and not (isnum(a) and val(a) == 0):
        return add(sum_(v, lo, hi, ite(c, a, zero)), sum_(v, lo, hi, ite(c, zero, b)))
    # linear split inside the non-zero branch
    if isnum(b) and val(b) == 0:
        x, g = a, c
    else:
        x, g = b, not_(c)
    out = zero
    for mo, k in pdict(x).items():
        inn, o = _split_factors(mo, v)
        f = mkpoly({o: k}, s)
        body = mkpoly({inn: Fraction(1)}, s)
        # flatten nested ite: ite(g, ite(g2,x,0)) 
        body2 = ite(g, body, zero)
        if body2.op == 'ite' and not (body2.a[0] is c or not_(body2.a[0]) is c):
            out = add(out, mul(f, _sum_ite(v, lo, hi, body2, None)))
        else:
            out = add(out, mul(f, _close('sum', (lo, hi), (body2,), v, s)))
    return out

def prod_(v, lo, hi, body):
    s = body.s
    d = sub(hi, lo)
    if isnum(d):
        if val(d) <= 0: return num(1, s)
        if val(d) <= 4:
            return mul(*[subst(body, {v: add(lo, I(k))}) for k in range(int(val(d)))])
    if isnum(body) and val(body) == 1: return body
    if not (lo.op == 'num' and lo.a[0] == 0):
        w = fresh('k', 'I')
        return prod_(w, num(0, 'I'), sub(hi, lo), subst(body, {v: add(w, lo)}))
    if body.op == 'ite':
        c, a, b = body.a
        if not occurs(v, c): return ite(c, prod_(v, lo, hi, a), prod_(v, lo, hi, b))
        for (g, x, y) in ((c, a, b), (not_(c), b, a)):
            r = _find_eq(g, v)
            if r is not None:
                e, rest = r
                if not (isnum(x) and val(x) == 1):
                    G = and_(inrange(lo, e, hi), subst(rest, {v: e}))
                    return mul(ite(G, subst(x, {v: e}), num(1, s)), prod_(v, lo, hi, ite(g, num(1, s), y)))
    p = pdict(body)
    if len(p) == 1 and body.op == 'poly':
        (m, c), = p.items()
        if len(m) + (c != 1) > 1 or (m and m[0][1] > 1):
            out = num(1, s)
            if c != 1: out = mul(out, _prod_atom(v, lo, hi, num(c, s)))
            for x, e in m:
                q = _prod_atom(v, lo, hi, x)
                for _ in range(e): out = mul(out, q)
            return out
    return _prod_atom(v, lo, hi, body)
def _prod_atom(v, lo, hi, body):
    if body.op in ('ite', 'poly') and body.op == 'ite': return prod_(v, lo, hi, body) if False else _close('prod', (lo, hi), (body,), v, body.s)
    return _close('prod', (lo, hi), (body,), v, body.s)

def first_(v, lo, hi, body):
    """least v in [lo,hi) with body, or hi if none (lo<=hi assumed)"""
    if body is TRUE: return lo
    if body is FALSE: return hi
    return _close('first', (lo, hi), (body,), v, 'I')

def last(v, lo, hi, g, e, dflt):
    """e(v) for the largest v in [lo,hi) with g(v); dflt if none"""
    if g is FALSE: return dflt
    if not occurs(v, g) and not occurs(v, e):
        return ite(and_(g, lt(lo, hi)), e, dflt)
    r = _find_eq(g, v)
    if r is not None:
        k, rest = r
        return ite(and_(inrange(lo, k, hi), subst(rest, {v: k})), subst(e, {v: k}), dflt)
    if not occurs(v, g):
        return ite(and_(g, lt(lo, hi)), subst(e, {v: sub(hi, I(1))}), dflt)
    if not occurs(v, e):
        return ite(any_(v, lo, hi, g), e, dflt)
    d = sub(hi, lo)
    if isnum(d) and val(d) <= 4:
        out = dflt
        for k in range(int(val(d))):
            m = {v: add(lo, I(k))}
            out = ite(subst(g, m), subst(e, m), out)
        return out
    s = e.s
    h = max(g.h, e.h, lo.h, hi.h, dflt.h) + 1
    b = bv(h, v.s)
    return mk('last', (lo, hi, subst(g, {v: b}), subst(e, {v: b}), dflt, b), s)

# ---------------------------------------------------------------- printing
def show(t, d=0):
    op = t.op
    if d > 14: return '...'
    if op == 'num':
        return str(t.a[0])
    if op == 'sym': return t.a[0]
    if op == 'bv': return '#%d' % t.a[0]
    if op in ('true', 'false'): return op
    if op == 'poly':
        out = []
        for m, c in t.a:
            f = '*'.join((show(x, d + 1) + ('^%d' % e if e > 1 else '')) for x, e in m)
            if not f: out.append(str(c))
            elif c == 1: out.append(f)
            elif c == -1: out.append('-' + f)
            else: out.append('%s*%s' % (c, f))
        return '(' + ' + '.join(out) + ')'
    if op == 'app':
        if t.a[0] == '@': return '%s[%s]' % (show(t.a[1], d + 1), show(t.a[2], d + 1))
        return '%s(%s)' % (t.a[0], ', '.join(show(x, d + 1) for x in t.a[1:]))
    if op in ('sum', 'prod', 'all', 'any', 'first'):
        return '%s{%s<=%s<%s}(%s)' % (op, show(t.a[0], d + 1), show(t.a[-1]), show(t.a[1], d + 1), show(t.a[2], d + 1))
    if op == 'lam': return 'lam %s.%s' % (show(t.a[-1]), show(t.a[0], d + 1))
    if op == 'last': return 'last{%s<=%s<%s}(%s => %s | %s)' % (show(t.a[0], d+1), show(t.a[-1]), show(t.a[1], d+1), show(t.a[2], d+1), show(t.a[3], d+1), show(t.a[4], d+1))
    if op == 'le': return '%s<=0' % show(t.a[0], d + 1)
    if op == 'lt': return '%s<0' % show(t.a[0], d + 1)
    if op == 'eq': return '(%s == %s)' % (show(t.a[0], d + 1), show(t.a[1], d + 1))
    if op == 'ite': return 'ite(%s, %s, %s)' % tuple(show(x, d + 1) for x in t.a)
    if op == 'not': return '!' + show(t.a[0], d + 1)
    return '(' + (' %s ' % op).join(show(x, d + 1) for x in t.a) + ')'
