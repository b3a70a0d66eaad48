"""Proof search above the SMT layer: contextual simplification and congruence splitting. Every step is an entailment
decided by the SMT back end, so acceptance means every generated sub-obligation was discharged."""
import time
from terms import *
import terms as TM
import smt
from smt import Res, hasbv

class Budget(Exception): pass
class Tac:
    def __init__(self, timeout, extra, deadline):
        self.timeout = timeout; self.extra = extra; self.deadline = deadline; self.n = 0; self.cache = {}
        self.backends = {}
        self.t = 0.0
    def prove(self, hyps, goal, tmo, rounds=2):
        key = (tuple(hyps), goal, tmo)
        if key in self.cache: return self.cache[key]
        if time.time() > self.deadline: raise Budget()
        self.n += 1
        r = smt.prove(list(hyps), goal, timeout=tmo, rounds=rounds, extra=self.extra)
        self.cache[key] = r.ok
        return r.ok
    def decide(self, hyps, c):
        """TRUE / FALSE / None"""
        if c is TRUE or c is FALSE: return c
        if c in hyps: return TRUE
        if not_(c) in hyps: return FALSE
        if self.prove(hyps, c, 400): return TRUE
        if self.prove(hyps, not_(c), 400): return FALSE
        return None
    def simp(self, t, hyps, d=0):
        """contextual simplification: conditions decided by the context are removed"""
        op = t.op
        if op in ('num', 'sym', 'bv', 'true', 'false'): return t
        if op == 'ite':
            c = self.simp(t.a[0], hyps, d)
            r = self.decide(hyps, c)
            if r is TRUE: return self.simp(t.a[1], hyps, d)
            if r is FALSE: return self.simp(t.a[2], hyps, d)
            return ite(c, self.simp(t.a[1], hyps + [c], d), self.simp(t.a[2], hyps + [not_(c)], d))
        if op in ('sum', 'prod', 'all') and d < 3:
            w, parts = open_binder(t)
            lo, hi = parts[0], parts[1]
            if lo is TM.NOLIM or hi is TM.NOLIM: return t
            b = self.simp(parts[2], hyps + [le(lo, w), lt(w, hi)], d + 1)
            if b is parts[2]: return t
            return binder(op, w, lo, hi, b)
        if op == 'poly':
            if not any(x.op in ('ite', 'sum', 'prod', 'last', 'app') for m, c in t.a for x, e in m): return t
            out = num(0, t.s); ch = False
            for m, c in t.a:
                fs = [num(c, t.s)]
                for x, e in m:
                    y = self.simp(x, hyps, d)
                    if y is not x: ch = True
                    fs += [y] * e
                out = add(out, mul(*fs))
            return out if ch else t
        if op == 'app':
            args = [self.simp(x, hyps, d) if isinstance(x, T) and x.s != 'L' else x for x in t.a[1:]]
            if all(a is b for a, b in zip(args, t.a[1:])): return t
            return rebuild_app(t, args)
        if op in ('and', 'or'):
            hs = list(hyps); out = []
            for x in t.a:
                y = self.simp(x, hs, d)
                out.append(y)
                hs.append(y if op == 'and' else not_(y))
            r = and_(*out) if op == 'and' else or_(*out)
            return r
        if op == 'not': return not_(self.simp(t.a[0], hyps, d))
        if op in ('eq', 'le', 'lt') and t.s == 'B':
            if t.a[0].s == 'I':
                r = self.decide(hyps, t)
                return t if r is None else r
        return t
    # ---------------------------------------------------------------- congruence
    def eqv(self, a, b, hyps, depth=0):
        """prove a == b"""
        if a is b: return True
        if depth > 12: return False
        g = eq(a, b)
        if g is TRUE: return True
        heavy = a.h + b.h > 0 if hasattr(a, 'h') else True
        if self.prove(hyps, g, 600 if heavy else 1500): return True
        if a.s == 'B': return self.prove(hyps, imp(a, b), self.timeout) and self.prove(hyps, imp(b, a), self.timeout)
        # case split on a condition of either side
        for x in (a, b):
            if x.op == 'ite':
                c = x.a[0]
                r = self.decide(hyps, c)
                y = b if x is a else a
                if r is TRUE: return self.eqv(x.a[1], y, hyps, depth + 1)
                if r is FALSE: return self.eqv(x.a[2], y, hyps, depth + 1)
                def br(z, v):
                    if z.op == 'ite' and z.a[0] is c: return z.a[1 if v else 2]
                    return z
                return self.eqv(x.a[1], br(y, True), hyps + [c], depth + 1) and self.eqv(x.a[2], br(y, False), hyps + [not_(c)], depth + 1)
        if a.op == b.op and a.op in ('sum', 'prod') and a.a[0] is b.a[0]:
            if a.a[1] is b.a[1] or self.eqv(a.a[1], b.a[1], hyps, depth + 1):
                k = fresh('k', a.a[-1].s)
                return self.eqv(subst(a.a[2], {a.a[-1]: k}), subst(b.a[2], {b.a[-1]: k}), hyps + [le(a.a[0], k), lt(k, a.a[1])], depth + 1)
        if a.op == b.op == 'last' and a.a[0] is b.a[0]:
            if not self.eqv(a.a[1], b.a[1], hyps, depth + 1): return False
            k = fresh('k', 'I'); h2 = hyps + [le(a.a[0], k), lt(k, a.a[1])]
            ga, gb = (subst(x.a[2], {x.a[-1]: k}) for x in (a, b)); ea, eb = (subst(x.a[3], {x.a[-1]: k}) for x in (a, b))
            return self.eqv(ga, gb, h2, depth + 1) and self.eqv(ea, eb, h2 + [ga], depth + 1) and self.eqv(a.a[4], b.a[4], hyps, depth + 1)
        if a.op == b.op == 'app' and a.a[0] == b.a[0] and len(a.a) == len(b.a):
            return all(x is y or (x.s != 'L' and self.eqv(x, y, hyps, depth + 1)) for x, y in zip(a.a[1:], b.a[1:]))
        if 'poly' in (a.op, b.op): return self.poly(a, b, hyps, depth + 1)
        return False
    def poly(self, a, b, hyps, depth):
        d = pdict(sub(a, b))
        # conditional factor anywhere: split
        for m in d:
            for x, e in m:
                if x.op == 'ite':
                    c = x.a[0]
                    p = mkpoly(d, a.s)
                    from loops import choose
                    ok = True
                    for v in (True, False):
                        h2 = hyps + [c if v else not_(c)]
                        if self.prove(h2, FALSE, 300): continue
                        q = choose(p, c, v) if p.op == 'poly' else (p.a[1] if v else p.a[2])
                        if not self.eqv(q, num(0, q.s), h2, depth + 1): ok = False; break
                    return ok
        pos = [(m, c) for m, c in d.items() if c > 0]; negs = [(m, -c) for m, c in d.items() if c < 0]
        # two monomials with matching shapes: prove factors equal pairwise
        if len(pos) == len(negs):
            used = set()
            for m, c in pos:
                hit = False
                for j, (m2, c2) in enumerate(negs):
                    if j in used or c != c2: continue
                    common = [q for q in m if q in m2]
                    r1 = [q for q in m if q not in common]; r2 = [q for q in m2 if q not in common]
                    if len(r1) != len(r2): continue
                    if self.match(r1, r2, hyps, depth): used.add(j); hit = True; break
                if not hit: return False
            return True
        return False
    def match(self, r1, r2, hyps, depth):
        if not r1: return True
        x, e = r1[0]
        for i, (y, f) in enumerate(r2):
            if e != f or x.op != y.op: continue
            if self.eqv(x, y, hyps, depth + 1) and self.match(r1[1:], r2[:i] + r2[i + 1:], hyps, depth): return True
        return False

# ---------------------------------------------------------------- elimination of real equations
def _idx(x):
    """ordering key of an application atom: the constant offset of its integer argument"""
    for a in x.a[1:]:
        if isinstance(a, T) and a.s == 'I': return pdict(a).get((), 0)
    return 0
def _orient(h):
    """real equation p == 0 solved for an application atom with constant coefficient -> (atom, rhs)"""
    if h.op != 'eq' or h.a[0].s != 'R': return None
    d = pdict(sub(h.a[0], h.a[1]))
    best = None
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app':
            x = m[0][0]
            if x.a[0] == 'toreal': continue
            if any(x is not y and False for y in ()): continue
            if any(x in dict(m2) for m2 in d if m2 != m): continue
            if best is None or _idx(x) > _idx(best[0]): best = (x, c)
    if best is None: return None
    x, c = best
    rest = mkpoly({m: -v / c for m, v in d.items() if m != ((x, 1),)}, 'R')
    if any(y is x for y in _subterms(rest)): return None
    return x, rest
def _subterms(t):
    from loops import subterms
    return subterms(t)
def units(hyps, quick=300):
    """facts guarded by decidable integer conditions, unguarded"""
    out = []
    ints = [h for h in hyps if h.op in ('le', 'eq', 'not', 'lt') and all(x.s != 'R' for x in kids(h)) and h.h == 0]
    memo = {}
    def decided_false(c):
        if c in memo: return memo[c]
        if c in ints: r = False
        elif not_(c) in ints: r = True
        else: r = smt.prove(ints, not_(c), timeout=quick, rounds=1).ok
        memo[c] = r
        return r
    for h in hyps:
        if h.op == 'or':
            eqs = [x for x in h.a if x.op == 'eq' and x.a[0].s == 'R']
            if len(eqs) == 1 and all(decided_false(x) for x in h.a if x is not eqs[0]): out.append(eqs[0])
            else: out.append(h)
        else: out.append(h)
    return out
def elim(hyps, goal):
    """substitute solved real equations into the goal and the other hypotheses"""
    hs = units(hyps)
    eqs = [h for h in hs if h.op == 'eq' and h.a[0].s == 'R']
    rest = [h for h in hs if not (h.op == 'eq' and h.a[0].s == 'R')]
    from loops import replace_apps
    sols = []
    work = list(dict.fromkeys(eqs))
    # highest index first
    for _ in range(60):
        best = None
        for e in work:
            o = _orient(e)
            if o and (best is None or _idx(o[0]) > _idx(best[1][0])): best = (e, o)
        if best is None: break
        e, (x, r) = best
        work.remove(e)
        f = lambda y: r if y is x else None
        work = [w2 for w2 in (replace_apps(w, f) for w in work) if w2 is not TRUE]
        sols.append((x, r))
        goal = replace_apps(goal, f)
        if goal is TRUE: return [], TRUE
    return rest + work, goal
def mono_reduce(hyps, goal):
    """reduce a real equation goal by monomial equations m == rest (and t*inv(t) == 1 where t != 0 is known) of the hypotheses"""
    if goal.op != 'eq' or goal.a[0].s != 'R': return goal
    rules = []
    atoms = {x for x in _subterms(goal)} 
    for h in hyps:
        if h.op != 'eq' or h.a[0].s != 'R': continue
        d = pdict(sub(h.a[0], h.a[1]))
        best = None
        for m, c in d.items():
            if sum(e for _, e in m) >= 2 and all(x.op == 'app' and x.a[0] != 'toreal' for x, _ in m):
                if best is None or sum(e for _, e in m) > sum(e for _, e in best[0]): best = (m, c)
        if best is None: continue
        m, c = best
        rest = mkpoly({k: -v / c for k, v in d.items() if k != m}, 'R')
        if any(x in _subterms(rest) for x, _ in m): continue
        rules.append((dict(m), rest))
    if not rules: return goal
    p = sub(goal.a[0], goal.a[1])
    for _ in range(40):
        ch = False
        for m, c in pdict(p).items():
            d = dict(m)
            for r, rest in rules:
                if all(d.get(x, 0) >= e for x, e in r.items()):
                    q = {x: e - r.get(x, 0) for x, e in d.items()}
                    mono = num(c, 'R')
                    for x, e in q.items():
                        for _ in range(e): mono = mul(mono, x)
                    p = add(sub(p, mkpoly({m: c}, 'R')), mul(mono, rest))
                    ch = True; break
            if ch: break
        if not ch: break
    return eq(p, num(0, 'R'))
def tight(hyps):
    """integer equations implied by opposite inequalities"""
    les = {h.a[0] for h in hyps if h.op == 'le' and h.a[0].s == 'I'}
    return [eq(x, num(0, 'I')) for x in sorted(les, key=lambda z: z.id) if neg(x) in les]
def small_range(hyps, goal, width=3):
    """an integer variable of the goal confined to a short literal range"""
    lo, hi = {}, {}
    for h in hyps:
        if h.op == 'le' and h.a[0].s == 'I':
            d = dict(pdict(h.a[0])); c = d.pop((), 0)
            if len(d) == 1:
                (m, k), = d.items()
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sym':
                    v = m[0][0]
                    if k == 1: hi[v] = min(hi.get(v, -c), -c)
                    elif k == -1: lo[v] = max(lo.get(v, c), c)
    fv = None
    for v in sorted(lo, key=lambda z: z.id):
        if v in hi and hi[v] - lo[v] < width:
            if fv is None: fv = freevars(goal)
            if v in fv: return v, int(lo[v]), int(hi[v])
    return None
def elim_prove(hyps, goal, timeout=1500, depth=3):
    if goal is TRUE: return True
    hyps = list(hyps)
    for e in tight(hyps):
        if e not in hyps: hyps.append(e)
    rg = small_range(hyps, goal)
    if rg:
        v, lo, hi = rg
        return all(elim_prove([x for x in (subst(h, {v: I(c)}) for h in hyps) if x is not TRUE], subst(goal, {v: I(c)}), timeout, depth) for c in range(lo, hi + 1))
    if goal.op == 'and': return all(elim_prove(hyps, g, timeout, depth) for g in goal.a)
    if goal.op == 'or':
        es = [x for x in goal.a if x.op == 'eq' and x.a[0].s == 'R']
        if len(es) == 1: return elim_prove(hyps + [c for x in goal.a if x is not es[0] for c in conj(not_(x))], es[0], timeout, depth)
    # case split on conditions of the goal first
    if goal.op == 'eq' and goal.a[0].s in ('R', 'I'):
        c = first_cond(sub(goal.a[0], goal.a[1]))
        if c is not None:
            p = sub(goal.a[0], goal.a[1])
            ints = [h for h in hyps if all(x.s != 'R' for x in kids(h)) and h.h == 0]
            for v in (True, False):
                cv = c if v else not_(c)
                if smt.prove(ints, not_(cv), timeout=300, rounds=1).ok: continue
                q = cond_choose(p, c, v)
                # an equation i == e in the branch condition is substituted
                if not elim_prove(hyps + list(conj(cv)), eq(q, num(0, q.s)), timeout, depth): return False
            return True
        if goal.a[0].s == 'R':
            # integer equations of the context determine symbols
            for h in hyps:
                if h.op == 'eq' and h.a[0].s == 'I':
                    for v in sorted(freevars(h), key=lambda z: -z.id):
                        e = solve_eq(h, v)
                        if e is not None and v in freevars(goal):
                            m = {v: e}
                            return elim_prove([x for x in (subst(x, m) for x in hyps) if x is not TRUE], subst(goal, m), timeout, depth)
            hs, g = elim(hyps, goal)
            if g is TRUE: return True
            g = mono_reduce(hs, g)
            if g is TRUE: return True
            if smt.prove(hs, g, timeout=timeout if depth == 3 else 500, rounds=1).ok: return True
            if depth:
                # split on the undecided guard of a definitional fact about a term of the goal
                apps = {x for x in _subterms(goal) if x.op == 'app'}
                cs = []
                for h in hs:
                    if h.op == 'or':
                        es = [x for x in h.a if x.op == 'eq' and x.a[0].s == 'R']
                        if len(es) != 1: continue
                        o = _orient(es[0])
                        if o is None or o[0] not in apps: continue
                        for x in h.a:
                            if x is not es[0] and x.h == 0 and x.op in ('le', 'lt', 'eq', 'not'): cs.append((-_idx(o[0]), x if x.op != 'not' else x.a[0]))
                cs.sort(key=lambda z: z[0])
                ints = [h for h in hyps if all(x.s != 'R' for x in kids(h)) and h.h == 0]
                for _, c in cs[:4]:
                    if smt.prove(ints, c, timeout=300, rounds=1).ok or smt.prove(ints, not_(c), timeout=300, rounds=1).ok: continue
                    return elim_prove(hyps + list(conj(c)), goal, timeout, depth - 1) and elim_prove(hyps + list(conj(not_(c))), goal, timeout, depth - 1)
            return False
    return smt.prove(list(hyps), goal, timeout=timeout, rounds=1).ok
def first_cond(p):
    if p.op == 'ite': return p.a[0]
    if p.op == 'poly':
        for m, _ in p.a:
            for x, e in m:
                if x.op == 'ite': return x.a[0]
    return None
def cond_choose(p, c, v):
    from loops import choose
    if p.op == 'ite': return p.a[1] if v else p.a[2]
    return choose(p, c, v)

def prove(hyps, goal, timeout=8000, extra=(), budget=60, want_model=False):
    t0 = time.time()
    r = smt.prove(hyps, goal, timeout=min(2500, timeout), extra=extra, backends=('z3',), want_model=want_model)
    if r.ok: return r
    if goal.op == 'eq' and goal.a[0].s == 'R' and any(h.op in ('eq', 'or') for h in hyps):
        try:
            if elim_prove(list(hyps), goal, 2500): return Res(True, 'unsat', t=time.time() - t0, backend='normaliser+z3 (equation elimination)')
        except RecursionError: pass
    if goal.op == 'eq' and goal.a[0].s in ('R', 'I') and budget > 3 and last_cases(list(hyps), goal, extra, t0 + budget): return Res(True, 'unsat', t=time.time() - t0, backend='z3 (cases of a last write)')
    if budget > 3:
        tac = Tac(timeout, extra, t0 + budget)
        try:
            if goals(tac, list(hyps), goal): return Res(True, 'unsat', t=time.time() - t0, backend='z3 (split)')
        except Budget: pass
    if timeout > 2500 or r.status == 'unknown':
        r2 = smt.prove(hyps, goal, timeout=timeout, extra=extra, backends=('z3', 'cvc5'), want_model=want_model)
        r2.t = time.time() - t0
        return r2
    r.t = time.time() - t0
    return r

def last_cases(hyps, goal, extra, deadline):
    """a goal over the last write of a loop: some iteration writes and every writing iteration satisfies it, or none writes"""
    p = sub(goal.a[0], goal.a[1])
    t = p if p.op == 'last' else next((x for m, _ in pdict(p).items() for x, e in m if x.op == 'last' and not hasbv(x)), None)
    if t is None or t.s not in ('R', 'I'): return False
    def put(v):
        r = num(0, p.s)
        for m, c in pdict(p).items():
            fs = [num(c, p.s)]
            for x, e in m: fs += [v if x is t else x] * e
            r = add(r, mul(*fs))
        return eq(r, num(0, p.s))
    w, (lo, hi, g, v, base) = open_binder(t)
    left = lambda: max(2000, int(1000 * (deadline - time.time()) / 2))
    if time.time() > deadline: return False
    h2 = hyps + [le(lo, w), lt(w, hi)] + list(conj(g))
    gw = put(v)
    if not (smt.prove(h2, gw, timeout=min(6000, left()), extra=extra, backends=('z3',)).ok or elim_prove(h2, gw, 2500) or last_cases(h2, gw, extra, deadline)): return False
    some = any_(w, lo, hi, g)
    if smt.prove(hyps, some, timeout=min(8000, left()), extra=extra, backends=('z3',)).ok: return True
    gb = put(base); h3 = hyps + [not_(some)]
    return smt.prove(h3, gb, timeout=min(6000, left()), extra=extra, backends=('z3',)).ok or last_cases(h3, gb, extra, deadline)

def goals(tac, hyps, goal):
    g = tac.simp(goal, hyps)
    if g is TRUE: return True
    if g is not goal and tac.prove(hyps, g, 2500): return True
    if g.op == 'and': return all(goals(tac, hyps, x) for x in g.a)
    if g.op == 'or':
        # negate the easy disjuncts into hypotheses
        eqs = [x for x in g.a if x.op == 'eq' and x.a[0].s in ('R', 'I') and (x.a[0].h > 0)]
        if len(eqs) == 1: return goals(tac, hyps + [not_(x) for x in g.a if x is not eqs[0]], eqs[0])
        return False
    if g.op == 'all':
        w, parts = open_binder(g)
        h2 = list(hyps)
        if parts[0] is not TM.NOLIM: h2.append(le(parts[0], w))
        if parts[1] is not TM.NOLIM: h2.append(lt(w, parts[1]))
        return goals(tac, h2, parts[2])
    if g.op == 'eq' and g.a[0].s in ('R', 'I'): return tac.eqv(g.a[0], g.a[1], hyps)
    if g.op == 'ite':
        return goals(tac, hyps + [g.a[0]], g.a[1]) and goals(tac, hyps + [not_(g.a[0])], g.a[2])
    return False
