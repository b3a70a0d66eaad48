"""Discharging obligations: hyps |- goal, with z3 (python API) and cvc5 as back ends.

Binder terms (sum, prod, first, last, lambda arguments of applications) are closure-converted: the term becomes an
uninterpreted function of its maximal bound-variable-free subterms, so congruence is free; extensionality between
different bodies is added as skolemised ground axioms (sound: the skolem is the witness of disagreement).
"""
import time, z3
from terms import *
import terms as TM

class Encoder:
    """term -> z3 expression, cached for the whole process (z3 symbols are global by name)"""
    def __init__(self):
        self.cache = {}
        self.fn = {}
        self.names = {}
        self.sorts = {}
        self.pat = {}
    def sort(self, s):
        if s == 'I': return z3.IntSort()
        if s == 'R': return z3.RealSort()
        if s == 'B': return z3.BoolSort()
        if s not in self.sorts: self.sorts[s] = z3.DeclareSort('S_' + s)
        return self.sorts[s]
    def func(self, name, doms, rng):
        key = (name, tuple(str(d) for d in doms), str(rng))
        f = self.fn.get(key)
        if f is None:
            k = self.names.get(name, 0); self.names[name] = k + 1
            n = name if k == 0 else '%s/%d' % (name, k)
            f = z3.Function(n, *(list(doms) + [rng])) if doms else z3.Const(n, rng)
            self.fn[key] = f
        return f
    def enc(self, t, env=None):
        """env: dict bv/sym -> z3 var for quantified variables"""
        if env and not any(v in env for v in freevars(t)): env = None
        if not env:
            r = self.cache.get(t)
            if r is not None: return r
        r = self._enc(t, env)
        if not env: self.cache[t] = r
        return r
    def _enc(self, t, env):
        op = t.op
        E = lambda x: self.enc(x, env)
        if op == 'num':
            v = t.a[0]
            if t.s == 'I': return z3.IntVal(int(v))
            return z3.RealVal(str(v))
        if op == 'true': return z3.BoolVal(True)
        if op == 'false': return z3.BoolVal(False)
        if op in ('sym', 'bv'):
            if env and t in env: return env[t]
            if t.op == 'bv': raise Exception('dangling bv')
            return self.func(t.a[0], [], self.sort(t.s))
        if op == 'poly':
            parts = []
            for m, c in t.a:
                fs = []
                if c != 1 or not m:
                    fs.append(z3.IntVal(int(c)) if t.s == 'I' and c.denominator == 1 else z3.RealVal(str(c)))
                for x, e in m:
                    for _ in range(e): fs.append(E(x))
                p = fs[0]
                for f in fs[1:]: p = p * f
                parts.append(p)
            r = parts[0]
            for p in parts[1:]: r = r + p
            return r
        if op == 'le': return E(t.a[0]) <= 0
        if op == 'lt': return E(t.a[0]) < 0
        if op == 'eq':
            if EMATCH[0] and isnum(t.a[0]) and val(t.a[0]) == 0 and t.a[1].op == 'poly':      # sides without subtraction
                d = pdict(t.a[1]); return E(mkpoly({m: c for m, c in d.items() if c > 0}, t.a[1].s)) == E(mkpoly({m: -c for m, c in d.items() if c < 0}, t.a[1].s))
            return E(t.a[0]) == E(t.a[1])
        if op == 'not': return z3.Not(E(t.a[0]))
        if op == 'and': return z3.And(*[E(x) for x in t.a])
        if op == 'or': return z3.Or(*[E(x) for x in t.a])
        if op == 'ite': return z3.If(E(t.a[0]), E(t.a[1]), E(t.a[2]))
        if op == 'app':
            f = t.a[0]
            if f == 'toreal': return z3.ToReal(E(t.a[1]))
            if f == 'div' and isnum(t.a[2]): return E(t.a[1]) / E(t.a[2])
            if f == 'mod' and isnum(t.a[2]): return E(t.a[1]) % E(t.a[2])
            args = []
            key = f
            for x in t.a[1:]:
                if x.s == 'L':
                    # closure conversion of the lambda: part of the function name
                    p, fr = self.close(x)
                    key = key + '{%d}' % p.id
                    args += [E(y) for y in fr]
                else: args.append(E(x))
            fn = self.func(key + '/%s' % t.s if t.s not in ('R',) else key, [a.sort() for a in args], self.sort(t.s))
            return fn(*args) if args else fn
        if op == 'all':
            # choose the shift which makes the most array accesses direct (index = quantified variable)
            w = fresh('q', t.a[-1].s)
            lo, hi, body = t.a[0], t.a[1], subst(t.a[2], {t.a[-1]: w})
            off = best_shift(body, w) if w.s == 'I' else None
            if off is not None:
                body = subst(body, {w: sub(w, off)})
                if lo is not NOLIM: lo = add(lo, off)
                if hi is not NOLIM: hi = add(hi, off)
            zv = z3.Const('q%d' % w.id, self.sort(w.s))
            env2 = dict(env or {}); env2[w] = zv
            g = []
            if lo is not NOLIM: g.append(zv >= E(lo))
            if hi is not NOLIM: g.append(zv < E(hi))
            if EMATCH[0]:
                zs = [zv]; vs = [w]
                while body.op == 'all':
                    w2 = fresh('q', body.a[-1].s); z2 = z3.Const('q%d' % w2.id, self.sort(w2.s)); zs.append(z2); vs.append(w2); lo2, hi2 = body.a[0], body.a[1]
                    if lo2 is not NOLIM: g.append(z2 >= self.enc(lo2, env2))
                    if hi2 is not NOLIM: g.append(z2 < self.enc(hi2, env2))
                    body = subst(body.a[2], {body.a[-1]: w2}); env2[w2] = z2
                b = self.enc(body, env2)
                ps = [self.enc(x, env2) for x in patterns(body, vs)]
                return z3.ForAll(zs, z3.Implies(z3.And(*g), b) if g else b, patterns=ps)
            b = self.enc(body, env2)
            return z3.ForAll([zv], z3.Implies(z3.And(*g), b) if g else b)
        if op in ('sum', 'prod', 'first', 'last', 'lam'):
            p, fr = self.close(t)
            args = [E(y) for y in fr]
            fn = self.func('%s{%d}' % (op, p.id), [a.sort() for a in args], self.sort(t.s if t.s != 'L' else 'Lam'))
            return fn(*args) if args else fn
        raise Exception('enc ' + op)
    def close(self, t):
        """pattern, list of maximal bound-free subterms"""
        r = self.pat.get(t)
        if r is not None: return r
        holes = {}
        order = []
        def hole(x):
            if isnum(x) or x.op in ('true', 'false'): return x
            if x not in holes:
                holes[x] = sym('$%d' % len(order), x.s); order.append(x)
            return holes[x]
        memo = {}
        def go(x):
            if x in memo: return memo[x]
            if not hasbv(x) and x.op not in ('lam',): r = hole(x)
            elif not hasbv(x) and x.op == 'lam': r = mk(x.op, tuple(go(y) if isinstance(y, T) and y is not x.a[-1] else y for y in x.a), x.s)
            elif x.op == 'bv': r = x
            elif x.op == 'poly':
                # factors and monomials in an order which depends on their structure only, not on the free subterms
                its = []
                for m, c in sorted(x.a, key=lambda q: (sorted((skey(y), e) for y, e in q[0]), q[1])):
                    its.append((tuple((go(y), e) for y, e in sorted(m, key=lambda q: (skey(q[0]), q[1]))), c))
                r = mk('poly', tuple(its), x.s)
            elif x.op == 'app': r = mk('app', (x.a[0],) + tuple(go(y) for y in x.a[1:]), x.s)
            else:
                r = mk(x.op, tuple(go(y) if isinstance(y, T) and not (x.op in BINDERS and y is x.a[-1]) else y for y in x.a), x.s)
            memo[x] = r
            return r
        p = mk(t.op, tuple(go(y) if isinstance(y, T) and y is not t.a[-1] else y for y in t.a), t.s)
        self.pat[t] = (p, order)
        return p, order

EMATCH = [False]     # quantified hypotheses are instantiated by matching terms only, with all smallest covering applications as patterns
def patterns(body, vs):
    memo = {}
    def plain(x):       # applications of uninterpreted functions to variables, closed terms and such applications
        r = memo.get(x)
        if r is None:
            r = not any(v in freevars(x) for v in vs) and not hasbv(x) and (x.op in ('sym', 'num') or x.op == 'poly' and all(plain(y) for m, _ in x.a for y, e in m)) or x in vs or x.op == 'app' and x.a[0] not in ('toreal', 'div', 'mod') and all(y.s != 'L' and plain(y) for y in x.a[1:]) or x.op in ('sum', 'prod', 'first') and not hasbv(x) and all(plain(y) for y in ENC.close(x)[1])
            memo[x] = r
        return r
    out = []; seen = set()
    def go(x):
        if x in seen: return
        seen.add(x)
        for y in kids(x): go(y)
        if x.op in ('app', 'sum', 'prod', 'first') and plain(x) and all(v in freevars(x) for v in vs) and not any(y in _sub(x) for y in out): out.append(x)
    go(body)
    return out[:6]
def _sub(x):
    from loops import subterms
    return subterms(x)
_sk = {}
def skey(x):
    """structure of a term, its bound-free subterms left out"""
    r = _sk.get(x)
    if r is None:
        if x.op == 'bv': r = 'bv%s' % (x.a,)
        elif not hasbv(x) and x.op != 'lam': r = '$' if not isnum(x) else str(val(x))
        elif x.op == 'poly': r = '(' + '+'.join(sorted('*'.join(sorted('%s^%s' % (skey(y), e) for y, e in m)) + '*%s' % c for m, c in x.a)) + ')'
        else: r = x.op + '(' + ','.join(skey(y) if isinstance(y, T) else str(y) for y in x.a if not (x.op in BINDERS and y is x.a[-1])) + ')'
        _sk[x] = r
    return r
_hb = {}
def hasbv(x):
    r = _hb.get(x)
    if r is None:
        r = any(v.op == 'bv' for v in freevars(x)); _hb[x] = r
    return r
def best_shift(body, w):
    cnt = {}
    seen = set()
    st = [body]
    while st:
        x = st.pop()
        if x in seen or w not in freevars(x): continue
        seen.add(x)
        if x.op == 'app' and x.a[0] not in ('toreal', 'div', 'mod', 'inv'):
            for y in x.a[1:]:
                if y.s == 'I' and w in freevars(y):
                    d = sub(y, w)
                    if w not in freevars(d) and not hasbv(d): cnt[d] = cnt.get(d, 0) + 1
        elif EMATCH[0] and x.op in ('sum', 'prod', 'first') and not hasbv(x):
            for y in ENC.close(x)[1]:
                if y.s == 'I' and w in freevars(y):
                    d = sub(y, w)
                    if w not in freevars(d): cnt[d] = cnt.get(d, 0) + 1
        st.extend(kids(x))
    if not cnt: return None
    best = max(cnt, key=lambda d: (cnt[d], -d.id))
    if isnum(best) and val(best) == 0: return None
    if cnt.get(num(0, 'I'), 0) >= cnt[best]: return None
    return best

_gops = {}
def gops(t):
    """ground (not depending on a bound variable) operator terms and applications inside t"""
    r = _gops.get(t)
    if r is not None: return r
    acc = set()
    for y in kids(t):
        if y.op != 'bv': acc |= gops(y)
    if t.op in ('sum', 'prod', 'first', 'last', 'app') and not hasbv(t): acc.add(t)
    r = frozenset(acc)
    _gops[t] = r
    return r
ENC = Encoder()

class Ctx:
    def __init__(self):
        self.ops = []; self.opset = set(); self.apps = {}; self.seen = set()
    def enc(self, t):
        """register the ground operator terms of t"""
        for x in sorted(gops(t) - self.seen, key=lambda x: x.id):
            self.seen.add(x)
            if x.op == 'app':
                self.apps.setdefault(x.a[0], []).append(x)
                if any(y.s == 'L' for y in x.a[1:]): self.ops.append(x)
            else: self.ops.append(x)
        return None

LEMMAS = {}     # function name -> callable(term) -> list of T hypotheses (ground axioms of trusted math functions)
PAIRLEMMAS = {} # function name -> callable(t1,t2) -> list of T

def lem(name):
    def d(f): LEMMAS[name] = f; return f
    return d
@lem('sqrt')
def _(t):
    x = t.a[1]
    return [imp(ge(x, R(0)), and_(eq(mul(t, t), x), ge(t, R(0))))]
@lem('exp')
def _(t): return [gt(t, R(0))]
@lem('inv')
def _(t): return [imp(ne(t.a[1], R(0)), eq(mk('poly', tuple(sorted([(((t, 1), (t.a[1], 1)) if t.id < t.a[1].id else ((t.a[1], 1), (t, 1)), Fraction(1))])), 'R') if t.a[1].op not in ('poly', 'num') else _rawmul(t, t.a[1]), R(1)))]
def _rawmul(t, p): return mul(t, p)
@lem('trunc')
def _(t):
    x = t.a[1]
    r = toreal(t)
    return [imp(ge(x, R(0)), and_(le(r, x), lt(x, add(r, R(1))))), imp(le(x, R(0)), and_(ge(r, x), gt(r, sub(x, R(1)))))]
@lem('abs')
def _(t):
    x = t.a[1]
    return [eq(t, ite(ge(x, R(0)), x, neg(x)))]

def op_axioms(ctx, rounds=3, maxpairs=600, cands=()):
    """ground axioms for all op terms met so far. returns list of T"""
    out = []
    done = set()
    single = set()
    npairs = 0
    for rd in range(rounds):
        ops = list(ctx.ops)
        new = []
        for t in ops:
            if t in single: continue
            single.add(t)
            if t not in _sax: _sax[t] = single_axioms(t, ())
            new += _sax[t] + cand_axioms(t, cands)
        for i, a in enumerate(ops):
            for b in ops[:i]:
                if a.op != b.op or a.s != b.s: continue
                if a.op == 'app' and (a.a[0] != b.a[0] or len(a.a) != len(b.a)): continue
                if (a.id, b.id) in done: continue
                done.add((a.id, b.id))
                if npairs > maxpairs: continue
                npairs += 1
                if (a, b) not in _pax: _pax[(a, b)] = pair_axioms(a, b)
                new += _pax[(a, b)]
        if not new: break
        out += new
        for x in new: ctx.enc(x)
    return out

_sax = {}; _pax = {}
def cand_axioms(t, cands):
    out = []
    if t.op == 'first':
        lo, hi, body, v = t.a
        for c in cands: out.append(imp(and_(le(lo, c), lt(c, t)), not_(subst(body, {v: c}))))
    return out
def single_axioms(t, cands):
    out = []
    if t.op == 'sum':
        lo, hi = t.a[0], t.a[1]
        z = num(0, t.s)
        out.append(imp(le(hi, lo), eq(t, z)))
        body, v = t.a[2], t.a[-1]
        if t.a[2].h < 2:
            for rel in (eq, ge, le):
                k = fresh('k', 'I')
                out.append(or_(rel(t, z), and_(inrange(lo, k, hi), not_(rel(subst(body, {v: k}), z)))))
            for rel in (gt, lt):
                k = fresh('k', 'I')
                out.append(or_(rel(t, z), le(hi, lo), and_(inrange(lo, k, hi), not_(rel(subst(body, {v: k}), z)))))
    elif t.op == 'prod':
        lo, hi = t.a[0], t.a[1]
        z = num(1, t.s)
        out.append(imp(le(hi, lo), eq(t, z)))
        body, v = t.a[2], t.a[-1]
        k = fresh('k', 'I')
        out.append(or_(eq(t, z), and_(inrange(lo, k, hi), not_(eq(subst(body, {v: k}), z)))))
    elif t.op == 'first':
        lo, hi, body, v = t.a
        out.append(imp(le(lo, hi), and_(le(lo, t), le(t, hi))))
        out.append(imp(and_(le(lo, t), lt(t, hi)), subst(body, {v: t})))
        w = fresh('k', 'I')
        out.append(all_(w, lo, t, not_(subst(body, {v: w}))))
        for c in cands:
            out.append(imp(and_(le(lo, c), lt(c, t)), not_(subst(body, {v: c}))))
    elif t.op == 'last':
        lo, hi, g, e, d, v = t.a
        w = fresh('w', 'I')
        none = fresh('none', 'B')
        out.append(or_(none, and_(le(lo, w), lt(w, hi), subst(g, {v: w}), eq(t, subst(e, {v: w})))))
        out.append(or_(not_(none), eq(t, d)))
        k = fresh('k', 'I')
        out.append(all_(k, lo, hi, or_(not_(subst(g, {v: k})), and_(not_(none), le(k, w)))))
        for c in cands:
            out.append(imp(and_(le(lo, c), lt(c, hi), subst(g, {v: c})), and_(not_(none), le(c, w))))
    return out

def pair_axioms(a, b):
    out = []
    if a.op in ('sum', 'prod'):
        k = fresh('k', 'I')
        ba = subst(a.a[2], {a.a[-1]: k}); bb = subst(b.a[2], {b.a[-1]: k})
        d = sub(a.a[1], b.a[1]); dl = sub(a.a[0], b.a[0])
        same = ba is bb
        out.append(or_(eq(a, b), ne(a.a[0], b.a[0]), ne(a.a[1], b.a[1]), and_(inrange(a.a[0], k, a.a[1]), ne(ba, bb))))
        # unfolding
        comb = add if a.op == 'sum' else mul
        for x, y in ((a, b), (b, a)):
            d = sub(x.a[1], y.a[1])
            if isnum(d) and val(d) == 1:
                # x has one more element: x = y + body_x(hi_y)  if bodies agree on the common range
                bx = subst(x.a[2], {x.a[-1]: y.a[1]})
                kk = fresh('k', 'I')
                b1 = subst(x.a[2], {x.a[-1]: kk}); b2 = subst(y.a[2], {y.a[-1]: kk})
                dis = and_(inrange(y.a[0], kk, y.a[1]), ne(b1, b2))
                out.append(or_(eq(x, comb(y, bx)), ne(x.a[0], y.a[0]), lt(y.a[1], y.a[0]), dis))
            d = sub(y.a[0], x.a[0])
            if isnum(d) and val(d) == 1 and x.a[1] is y.a[1]:
                bx = subst(x.a[2], {x.a[-1]: x.a[0]})
                kk = fresh('k', 'I')
                b1 = subst(x.a[2], {x.a[-1]: kk}); b2 = subst(y.a[2], {y.a[-1]: kk})
                dis = and_(inrange(y.a[0], kk, y.a[1]), ne(b1, b2))
                out.append(or_(eq(x, comb(y, bx)), le(x.a[1], x.a[0]), dis))
    elif a.op == 'first':
        k = fresh('k', 'I')
        ba = subst(a.a[2], {a.a[-1]: k}); bb = subst(b.a[2], {b.a[-1]: k})
        out.append(or_(eq(a, b), ne(a.a[0], b.a[0]), ne(a.a[1], b.a[1]), and_(inrange(a.a[0], k, a.a[1]), ne(ba, bb))))
    elif a.op == 'app':
        conds = []
        for x, y in zip(a.a[1:], b.a[1:]):
            if x.s == 'L':
                conds.append(lam_diff(x, y))
            else: conds.append(ne(x, y))
        out.append(or_(eq(a, b), *conds))
    elif a.op == 'last':
        k = fresh('k', 'I')
        ga, ea = subst(a.a[2], {a.a[-1]: k}), subst(a.a[3], {a.a[-1]: k})
        gb, eb = subst(b.a[2], {b.a[-1]: k}), subst(b.a[3], {b.a[-1]: k})
        out.append(or_(eq(a, b), ne(a.a[0], b.a[0]), ne(a.a[1], b.a[1]), ne(a.a[4], b.a[4]),
                       and_(inrange(a.a[0], k, a.a[1]), or_(ne(ga, gb), and_(ga, ne(ea, eb))))))
    return out

def lam_diff(x, y):
    """formula implied by x != y as functions (skolem witness)"""
    if x is y: return FALSE
    if x.op == 'ite': return ite(x.a[0], lam_diff(x.a[1], y), lam_diff(x.a[2], y))
    if y.op == 'ite': return ite(y.a[0], lam_diff(x, y.a[1]), lam_diff(x, y.a[2]))
    sv = lamvs(x) if x.op == 'lam' else lamvs(y)
    k = fresh('k', sv)
    a, b = lapp(x, k), lapp(y, k)
    if a.s == 'L': return lam_diff(a, b)
    return ne(a, b)

class Res:
    def __init__(self, ok, status, model=None, t=0, backend='z3'):
        self.ok = ok; self.status = status; self.model = model; self.t = t; self.backend = backend

STATS = {'n': 0, 'time': 0.0}
def cand_ints(ts, limit=24):
    out = []
    seen = set()
    def add_(x):
        if x.s == 'I' and x not in seen and len(out) < limit:
            seen.add(x); out.append(x)
    for t in ts:
        for v in sorted(freevars(t), key=lambda v: v.id):
            if v.op == 'sym' and v is not NOLIM: add_(v)
    return out

def build(hyps, goal, rounds=3, extra=(), cands=None, maxpairs=600):
    ctx = Ctx()
    ng = not_(goal)
    asserts = list(hyps) + [ng]
    for x in asserts: ctx.enc(x)
    cs = cand_ints([ng] + list(hyps)) if cands is None else list(cands)
    ax = op_axioms(ctx, rounds, cands=cs, maxpairs=maxpairs)
    asserts += ax
    # trusted-function lemmas on ground applications
    seen = set()
    for _ in range(2):
        more = []
        for f, ts in list(ctx.apps.items()):
            if f in LEMMAS:
                for t in ts:
                    if t in seen: continue
                    seen.add(t)
                    more += LEMMAS[f](t)
            if f in PAIRLEMMAS:
                u = list(dict.fromkeys(ts))[:12]
                for i in range(len(u)):
                    for j in range(i):
                        if (u[i], u[j]) in seen: continue
                        seen.add((u[i], u[j]))
                        more += PAIRLEMMAS[f](u[i], u[j])
        for e in extra: more += e(ctx, seen)
        if not more: break
        for x in more: ctx.enc(x)
        asserts += more
    return ctx, asserts

SCALE = [1.0]; SEED = [1]       # a second attempt gets more time and another search order
def prove(hyps, goal, timeout=8000, rounds=3, extra=(), cands=None, backends=('z3',), want_model=False, maxpairs=600):
    t0 = time.time()
    if goal is TRUE: return Res(True, 'simplified', t=0, backend='normaliser')
    for h in hyps:
        if h is FALSE: return Res(True, 'simplified', t=0, backend='normaliser')
    if goal in hyps: return Res(True, 'simplified', backend='normaliser')
    if goal.op == 'and':
        for g in goal.a:
            r = prove(hyps, g, timeout, rounds, extra, cands, backends, want_model, maxpairs)
            if not r.ok: r.t = time.time() - t0; return r
        r.t = time.time() - t0
        return r
    STATS['n'] += 1
    ctx, asserts = build(hyps, goal, rounds, extra, cands, maxpairs)
    s = z3.Solver()
    s.set('timeout', int(timeout * SCALE[0]))
    s.set('random_seed', SEED[0])
    if EMATCH[0]: s.set('smt.auto_config', False); s.set('smt.mbqi', False)
    if SEED[0] != 1: asserts = list(asserts); random.Random(SEED[0]).shuffle(asserts)
    for x in asserts: s.add(ENC.enc(x))
    r = s.check()
    if EMATCH[0] and r == z3.unknown and timeout >= 2000:
        s = z3.Solver(); s.set('timeout', int(min(timeout, 4000) * SCALE[0])); s.set('random_seed', SEED[0])
        for x in asserts: s.add(ENC.enc(x))
        r = s.check()
    dt = time.time() - t0
    STATS['time'] += dt
    if r == z3.unsat: return Res(True, 'unsat', t=dt)
    if 'cvc5' in backends and r == z3.unknown:
        rr = cvc5_check(s, timeout)
        STATS['time'] += rr[1]
        if rr[0] == 'unsat': return Res(True, 'unsat', t=dt + rr[1], backend='cvc5')
    m = None
    if r == z3.sat and want_model:
        m = s.model()
    res = Res(False, str(r), m, dt)
    res.ctx = ctx
    res.solver = s
    return res

import subprocess, tempfile, os, random
def cvc5_check(s, timeout):
    t0 = time.time()
    try:
        txt = '(set-logic ALL)\n' + s.to_smt2()
        fd, p = tempfile.mkstemp(suffix='.smt2'); os.write(fd, txt.encode()); os.close(fd)
        try: r = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '--full-saturate-quant', p], capture_output=True, text=True, timeout=timeout / 1000 + 5)
        finally: os.unlink(p)
        return (r.stdout.strip().split('\n')[0], time.time() - t0)
    except Exception as e: return ('error', time.time() - t0)

def feasible(hyps, timeout=500):
    if any(h is FALSE for h in hyps): return False
    return not prove(list(hyps), FALSE, timeout=timeout, rounds=1).ok

@lem('div')
def _(t):
    a, b = t.a[1], t.a[2]
    return [] if isnum(b) else [imp(and_(ge(a, I(0)), gt(b, I(0))), and_(ge(t, I(0)), le(mul(t, b), a), lt(a, add(mul(t, b), b))))]
@lem('mod')
def _(t):
    a, b = t.a[1], t.a[2]
    return [] if isnum(b) else [imp(and_(ge(a, I(0)), gt(b, I(0))), and_(ge(t, I(0)), lt(t, b), eq(t, sub(a, mul(b, app('div', 'I', a, b))))))]
