"""Loop summarisation: replaces a loop of unbounded trip count by its exact effect where a closed form exists
(induction variables, sums, products, conjunctions/disjunctions, guarded updates, element-wise writes, first-exit
searches, recurrences matched against contract-supplied recurrence functions), and by a sound over-approximation
(arbitrary value, plus the invariants proved inductive) otherwise."""
from terms import *
import terms as TM
from vals import *
import smt

import os
DBG = os.environ.get('MPX_DBG')
_uid = [0]

def leaves(v, steps=()):
    """yield (steps, T) for each scalar/array leaf of a value"""
    if isinstance(v, T): yield steps, v
    elif isinstance(v, Rec):
        for k, x in v.f.items(): yield from leaves(x, steps + (('f', k),))
    elif isinstance(v, Vec):
        yield steps + (('vn',),), v.n
        if v.e is not None: yield from leaves(v.e, steps + (('ve',),))
    elif isinstance(v, SetV):
        yield steps + (('sm',),), v.m
        yield steps + (('sn',),), v.n
    elif isinstance(v, MapV):
        yield steps + (('md',),), v.d
        yield from leaves(v.v, steps + (('mv',),))
        yield steps + (('mn',),), v.n
    elif isinstance(v, View):
        for i, (k, t) in enumerate(v.dims): yield steps + (('vd', i),), t
        for i, t in enumerate(v.ext): yield steps + (('vx', i),), t
    elif isinstance(v, Ptr):
        yield steps + (('po',),), v.off
    elif isinstance(v, Opq) and v.tag == 'setit':
        yield steps + (('so',),), v.data[1]

def get_leaf(v, p):
    if not p: return v if isinstance(v, T) else None
    s = p[0]
    try:
        if s[0] == 'f': return get_leaf(v.f[s[1]], p[1:])
        if s[0] == 'vn': return v.n
        if s[0] == 've': return get_leaf(v.e, p[1:])
        if s[0] == 'sm': return v.m
        if s[0] == 'sn': return v.n
        if s[0] == 'md': return v.d
        if s[0] == 'mv': return get_leaf(v.v, p[1:])
        if s[0] == 'mn': return v.n
        if s[0] == 'vd': return v.dims[s[1]][1]
        if s[0] == 'vx': return v.ext[s[1]]
        if s[0] == 'po': return v.off
        if s[0] == 'so': return v.data[1]
    except (AttributeError, KeyError, IndexError):
        return None
def set_leaf(v, p, t):
    if not p: return t
    s = p[0]
    if s[0] == 'f': return v.with_(s[1], set_leaf(v.f[s[1]], p[1:], t))
    if s[0] == 'vn': return Vec(t, v.e, v.et)
    if s[0] == 've': return Vec(v.n, set_leaf(v.e, p[1:], t), v.et)
    if s[0] == 'sm': return SetV(t, v.n)
    if s[0] == 'sn': return SetV(v.m, t)
    if s[0] == 'md': return MapV(t, v.v, v.n)
    if s[0] == 'mv': return MapV(v.d, set_leaf(v.v, p[1:], t), v.n)
    if s[0] == 'mn': return MapV(v.d, v.v, t)
    if s[0] == 'vd': d = list(v.dims); d[s[1]] = (d[s[1]][0], t); return View(v.buf, d, v.ext)
    if s[0] == 'vx': d = list(v.ext); d[s[1]] = t; return View(v.buf, v.dims, d)
    if s[0] == 'po': return Ptr(v.base, t)
    if s[0] == 'so': return Opq('setit', (v.data[0], t))
    raise Exception

def shape_same(a, b):
    """same structure (ignoring term leaves)"""
    if isinstance(a, T) and isinstance(b, T): return a.s == b.s
    if isinstance(b, Poison): return True
    if type(a) is not type(b): return False
    if isinstance(a, Rec): return a.f.keys() == b.f.keys() and all(shape_same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Vec):
        if (a.e is None) != (b.e is None): return False
        return a.e is None or shape_same(a.e, b.e)
    if isinstance(a, MapV): return shape_same(a.v, b.v)
    if isinstance(a, SetV): return True
    if isinstance(a, View): return a.buf == b.buf and [x[0] for x in a.dims] == [x[0] for x in b.dims]
    if isinstance(a, Ptr): return a.base == b.base
    if isinstance(a, Opq) and a.tag == 'setit': return a.data[0] == b.data[0] and b.tag == 'setit'
    return same(a, b)

def lam_sig(t):
    """argument sorts and result sort of an array leaf"""
    ss = []
    while t.s == 'L':
        if t.op == 'lam':
            ss.append(t.a[-1].s)
            t = t.a[0]
        elif t.op == 'ite': t = t.a[1]
        else: raise Unsupported('lam_sig %s' % t.op)
    return ss, t.s

def open_lam(t, n, vs=None):
    ss, r = lam_sig(t)
    vs = vs or [fresh('i', s) for s in ss]
    for v in vs: t = lapp(t, v)
    return vs, t

class Leaf:
    def __init__(self, root, path, base, k):
        self.root = root; self.path = path; self.base = base
        _uid[0] += 1
        self.u = 'U#%d' % _uid[0]
        if base.s == 'L':
            self.ss, self.rs = lam_sig(base)
            vs = [fresh('i', s) for s in self.ss]
            t = app(self.u, self.rs, k, *vs)
            self.hav = t
            for v in reversed(vs): self.hav = lam(v, self.hav)
        else:
            self.ss, self.rs = [], base.s
            self.hav = app(self.u, base.s, k)
        self.closed = None     # term with k
        self.nxt = None
        self.writes = None     # for arrays (params, guard(k,params), value)

def has_u(t, names, memo=None):
    """does t contain an application of an unresolved iterate?"""
    if memo is None: memo = {}
    def go(x):
        if x in memo: return memo[x]
        memo[x] = False
        r = False
        if x.op == 'app' and x.a[0] in names: r = True
        else:
            for y in kids(x):
                if go(y): r = True; break
        memo[x] = r
        return r
    return go(t)
def collect_u(t, name):
    out = []
    seen = set()
    def go(x):
        if x in seen: return
        seen.add(x)
        if x.op == 'app' and x.a[0] == name: out.append(x)
        for y in kids(x): go(y)
    go(t)
    return out

def replace_terms(t, m): return replace_apps(t, lambda y: None, m)
def replace_apps(t, f, m=None):
    """rewrite every uninterpreted application x via f(x) (None = keep); works under binders when f result is closed"""
    memo = {}
    def go(x):
        r = memo.get(x)
        if r is not None: return r
        if m is not None and x in m: return m[x]
        op = x.op
        if op == 'app':
            args = [go(y) for y in x.a[1:]]
            y = x if all(a is b for a, b in zip(args, x.a[1:])) else rebuild_app(x, args)
            r = None
            if y.op == 'app': r = f(y)
            if r is None: r = y
        elif op in ('num', 'sym', 'bv', 'true', 'false'): r = x
        elif op == 'poly':
            parts = []
            ch = False
            for mo, c in x.a:
                fs = [num(c, x.s)]
                for y, e in mo:
                    z = go(y)
                    if z is not y: ch = True
                    for _ in range(e): fs.append(z)
                parts.append(fs)
            r = add(*[mul(*p) for p in parts]) if ch else x
        elif op in BINDERS:
            w, parts = open_binder(x)
            new = [go(p) if isinstance(p, T) else p for p in parts]
            if all(a is b for a, b in zip(new, parts)): r = x
            elif op == 'lam': r = lam(w, new[0])
            elif op == 'last': r = last(w, *new)
            else: r = binder(op, w, TM._lim(new[0]) if op == 'all' else new[0], TM._lim(new[1]) if op == 'all' else new[1], new[2])
        elif op == 'not': r = not_(go(x.a[0]))
        elif op == 'and': r = and_(*[go(y) for y in x.a])
        elif op == 'or': r = or_(*[go(y) for y in x.a])
        elif op == 'le': r = le0(go(x.a[0]))
        elif op == 'lt': r = lt0(go(x.a[0]))
        elif op == 'eq': r = eq(go(x.a[0]), go(x.a[1]))
        elif op == 'ite': r = ite(go(x.a[0]), go(x.a[1]), go(x.a[2]))
        else: raise Exception(op)
        memo[x] = r
        return r
    return go(t)

def paths(t, X):
    """flatten ite tree: list of (guard, value); stops at subtrees not containing X"""
    if t.op == 'ite' and (has_term(t.a[1], X) or has_term(t.a[2], X) or t.a[1] is X or t.a[2] is X):
        c = t.a[0]
        return [(and_(c, g), v) for g, v in paths(t.a[1], X)] + [(and_(not_(c), g), v) for g, v in paths(t.a[2], X)]
    if t.op == 'poly' and has_term(t, X):
        for m, _ in t.a:
            for x, e in m:
                if x.op == 'ite' and has_term(x, X):
                    c = x.a[0]
                    return [(and_(c, g), v) for g, v in paths(choose(t, c, True), X)] + [(and_(not_(c), g), v) for g, v in paths(choose(t, c, False), X)]
    return [(TRUE, t)]
def choose(t, c, b):
    """t with the top-level conditional factors on c decided"""
    out = num(0, t.s); nc = not_(c)
    for m, k in t.a:
        fs = [num(k, t.s)]
        for x, e in m:
            if x.op == 'ite' and x.a[0] is c: x = x.a[1] if b else x.a[2]
            elif x.op == 'ite' and x.a[0] is nc: x = x.a[2] if b else x.a[1]
            fs += [x] * e
        out = add(out, mul(*fs))
    return out
def has_term(t, X):
    return any(x is X for x in subterms(t))
_sub = {}
def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        st.extend(kids(x))
    return seen

class LoopInfo: pass

def peel_ok(ex, st, fr, cond, inc, body):
    """a loop whose header mentions a local with a negative literal value: peel iterations until it is non-negative"""
    p = st.clone()
    ex.dry += 1
    log = ex.readlog; ex.readlog = []
    try: c = cond(p); rd_ = ex.readlog
    except Unsupported: return False
    finally: ex.dry -= 1; ex.readlog = log
    for r in rd_:
        if not r.steps:
            v = st.store.get(r.root)
            if isinstance(v, T) and v.s == 'I' and isnum(v) and val(v) < 0: return True
    return False

def run_loop(ex, st, fr, cond, inc, body, loc, par=None, peel=3):
    """par: None for sequential loops, or (k_symbol_lo, n) marking a parallel region (iterations must be independent)"""
    # ---- 1. concrete unrolling
    if par is None:
        r = try_unroll(ex, st, fr, cond, inc, body)
        if r is not NOUNROLL: return r
        if peel and peel_ok(ex, st, fr, cond, inc, body):
            c = cond(st)
            exits = []
            if c is not TRUE and not ex.quick(st, c):
                sx = st.clone(); sx.assume(not_(c)); exits.append(sx)
            st.assume(c)
            lc = LoopCtx2(); fr.loops.append(lc)
            end = body(st)
            fr.loops.pop()
            exits += lc.brk
            nx = merge([end] + lc.cont)
            if nx is not None:
                inc(nx)
                exits.append(run_loop(ex, nx, fr, cond, inc, body, loc, par, peel - 1))
            return merge([x for x in exits if x is not None and not x.dead()])
    return summarise(ex, st, fr, cond, inc, body, loc, par)

NOUNROLL = object()
def try_unroll(ex, st, fr, cond, inc, body):
    exits = []
    cur = st
    # probe: the condition must be decided syntactically at every iteration
    n = 0
    probe = st.clone()
    ex.dry += 1
    try:
        c = cond(probe)
    finally: ex.dry -= 1
    if c is FALSE:
        cond(st)
        return st
    if c is not TRUE: return NOUNROLL
    # dry run to see that it terminates
    def run(cur, dry):
        exits = []
        for it in range(ex.unroll + 1):
            c = cond(cur)
            if c is FALSE:
                return merge(exits + [cur])
            if c is not TRUE: 
                if ex.quick(cur, c): c = TRUE
                elif ex.quick(cur, not_(c)):
                    return merge(exits + [cur])
                else: return NOUNROLL
            lc = LoopCtx2(); fr.loops.append(lc)
            end = body(cur)
            fr.loops.pop()
            exits += lc.brk
            nx = merge([end] + lc.cont)
            if nx is None: 
                m = merge(exits)
                return m
            inc(nx)
            cur = nx
        return NOUNROLL
    ex.dry += 1
    m1, m2 = len(fr.throws), len(fr.rets)
    save = (ex.nroot, ex.nframe)
    try:
        r = run(st.clone(), True)
    except Unsupported:
        r = NOUNROLL
    finally:
        ex.dry -= 1
        del fr.throws[m1:]; del fr.rets[m2:]
    if r is NOUNROLL: return NOUNROLL
    return run(st, False)

class LoopCtx2:
    def __init__(self): self.brk = []; self.cont = []

def one_iter(ex, s0, fr, cond, inc, body):
    """execute one iteration from s0. returns (c, exit_state, next_state, breaks, rets, throws)"""
    m1, m2 = len(fr.throws), len(fr.rets)
    s = s0.clone()
    c = cond(s)
    sx = s.clone(); sx.assume(not_(c))
    s.assume(c)
    lc = LoopCtx2(); fr.loops.append(lc)
    end = body(s) if not s.dead() else None
    fr.loops.pop()
    nx = merge([end] + lc.cont)
    if nx is not None: inc(nx)
    thr = fr.throws[m1:]; rets = fr.rets[m2:]
    del fr.throws[m1:]; del fr.rets[m2:]
    brk = [b for b in lc.brk if not b.dead()]
    rets = [(a, v) for a, v in rets if not a.dead()]
    thr = [(a, l) for a, l in thr if not a.dead()]
    return c, sx, nx, brk, rets, thr

def rel(pc, base):
    return and_(*pc[len(base):]) if len(pc) > len(base) else TRUE

DEFN = {}      # trip count symbol of a loop -> the term that defines it (least iteration at which it is left)
def skolemise(k, mark, umark, own, s0, parts):
    """values introduced while executing an iteration (trip counts and over-approximated results of inner loops, results of
    callees) may differ from iteration to iteration: express them as functions of k. Returns the parts and whether any occurred"""
    c, sx, nx, brk, rets, thr = parts
    if TM._fresh[0] == mark: return parts, False
    memo, um = {}, {}
    hit = [False]
    inner = _uid[0] > umark
    def usc(t):
        r = um.get(t)
        if r is None:
            r = t.op == 'app' and isinstance(t.a[0], str) and t.a[0].startswith('U#') and int(t.a[0][2:]) > umark and t.a[0] not in own or any(usc(x) for x in kids(t))
            um[t] = r
        return r
    def f(t):
        r = memo.get(t)
        if r is not None: return r
        r = t
        for _ in range(6):
            m = {}
            for v in freevars(r):
                if v.op == 'sym' and '!' in v.a[0] and v is not k:
                    n = v.a[0].rsplit('!', 1)[1]
                    if n.isdigit() and int(n) > mark: m[v] = DEFN[v] if v in DEFN else app('sk:' + v.a[0], v.s, k)
            if not m: break
            hit[0] = True
            r = subst(r, m)
        if inner and usc(r):
            hit[0] = True
            r = replace_apps(r, lambda y: app('sk:' + y.a[0], y.s, k, *y.a[1:]) if isinstance(y.a[0], str) and y.a[0].startswith('U#') and int(y.a[0][2:]) > umark and y.a[0] not in own else None)
        memo[t] = r
        return r
    seen = set()
    def g(x):
        if x is None or id(x) in seen: return
        seen.add(id(x))
        n = len(s0.pc); pc = list(x.pc); new = pc[:n] + [f(y) for y in pc[n:]]
        if any(a is not b for a, b in zip(pc, new)): x.pc = type(x.pc)(new)
        for root, v in list(x.store.items()):
            if root in s0.store and v is not s0.store[root]:
                x.store[root] = vmap(f, v)
    for x in [sx, nx] + brk + [a for a, _ in rets] + [a for a, _ in thr]: g(x)
    rets = [(a, vmap(f, v) if isinstance(v, (V, T)) else v) for a, v in rets]
    return (f(c), sx, nx, brk, rets, thr), hit[0]

def summarise(ex, st, fr, cond, inc, body, loc, par):
    k = fresh('k', 'I'); ex.loopks = ex.loopks + (k,)     # indices of the loops under way, outermost first
    try: return summarise_(ex, st, fr, cond, inc, body, loc, par, k)
    finally: ex.loopks = ex.loopks[:-1]
def summarise_(ex, st, fr, cond, inc, body, loc, par, k):
    base = st
    mark, umark = TM._fresh[0], _uid[0]
    def iterate():
        n0 = ex.nfacts
        r, h = skolemise(k, mark, umark, {L.u for L in mods.values()}, s0, one_iter(ex, s0, fr, cond, inc, body))
        iterate.hit = h or ex.nfacts != n0
        return r
    mods = {}      # (root, path) -> Leaf
    kind = {}
    def start():
        s0 = base.clone()
        for (root, path), L in mods.items():
            s0.store[root] = set_leaf(s0.store[root], path, L.closed if L.closed is not None else L.hav)
        s0.assume(ge(k, I(0)))
        if par is not None: s0.assume(lt(k, par))
        return s0
    # ---- discovery + resolution (no obligations recorded)
    ex.dry += 1
    depth0, stack0 = ex.depth, list(ex.fnstack)
    try:
        for rnd in range(40):
            s0 = start()
            # facts about header condition for previous iterations are not needed for shapes
            c, sx, nx, brk, rets, thr = iterate()
            outs = [x for x in [nx] + brk + [r for r, _ in rets] + [t for t, _ in thr] if x is not None]
            new = False
            for o in outs + [sx]:
                for root, v in o.store.items():
                    if root not in base.store: continue
                    b = s0.store[root]
                    if v is b: continue
                    if not shape_same(v, b):
                        # allow vectors which were empty before the loop
                        nb = reshape(base.store[root], v)
                        if nb is None: raise Unsupported('loop changes the shape of %s at %s: %r -> %r' % (root, loc, b, v))
                        base.store[root] = nb
                        for key in [q for q in mods if q[0] == root]: del mods[key]
                        new = True
                        break
                    for (p, t), (p2, t2) in zip(leaves(v), leaves(b)):
                        if t is not t2 and (root, p) not in mods:
                            mods[(root, p)] = Leaf(root, p, get_leaf(base.store[root], p), k)
                            new = True
            if new: 
                for L in mods.values(): L.closed = None
                continue
            if nx is None: break
            unresolved = [L for L in mods.values() if L.closed is None]
            if not unresolved: break
            names = {L.u for L in unresolved}
            prog_ = False
            ctxpc = list(s0.pc) + ([c] if c is not TRUE else [])
            trace = None
            for L in unresolved:
                n = get_leaf(nx.store[L.root], L.path)
                cl = resolve(ex, L, n, k, names, nx, s0, par) if L.root not in ex.opaque or par is not None else None     # objects left to the invariants of the contract
                if cl is not None and ex.plain_forms and par is None and any(x.op in ('last', 'sum', 'first') for x in subterms(cl)): cl = None
                if cl is not None and ex.invs and par is None and any(x.op == 'app' and x.a[0].startswith('sk:') for x in subterms(cl)): cl = None    # left to the invariants of the contract
                if cl is not None:
                    L.closed = cl; prog_ = True
            if not prog_:
                if par is None and use_hints(ex, [L for L in mods.values() if L.closed is None], nx, s0, k): prog_ = True
            if not prog_: break
    finally:
        ex.dry -= 1
        ex.depth = depth0; ex.fnstack[:] = stack0
    unresolved = [L for L in mods.values() if L.closed is None]
    invs = []
    # ---- trip count from the header
    s0 = start()
    ex.dry += 1
    try:
        c, sx, nx, brk, rets, thr = iterate()
    finally: ex.dry -= 1
    exits = bool(brk or rets or thr)
    names = {L.u for L in unresolved}
    if par is not None: Nh = par
    else: Nh = solve_trip(ex, c, k, base, names)
    if unresolved and par is None:
        invs = infer_invariants(ex, unresolved, mods, base, s0, fr, cond, inc, body, k, Nh, c)
    stay = rel(nx.pc, s0.pc) if nx is not None else FALSE
    # conditions learnt inside by assume() of callee postconditions are part of stay; exits are the complement only when exits exist
    if nx is not None and not exits:
        pass
    facts = []
    if Nh is not None and not exits:
        N = Nh
    else:
        N = fresh('N', 'I')
        facts.append(ge(N, I(0)))
        if Nh is not None: facts.append(le(N, Nh))
        j = fresh('j', 'I')
        if exits:
            xc = exit_cond(c, sx, nx, brk, rets, thr, s0)
            if nx is None: facts.append(eq(N, I(0)))
            else:
                facts.append(all_(j, I(0), N, subst(not_(xc), {k: j})))
                if iterate.hit: facts.append(all_(j, I(0), N, subst(stay, {k: j})))
            if Nh is not None and not has_u(xc, names) and not has_u(Nh, names):
                DEFN[N] = first_(j, I(0), Nh, subst(or_(*[rel(x.pc, s0.pc) for x in brk + [a for a, _ in rets] + [a for a, _ in thr]]), {k: j}))
        else:
            facts.append(all_(j, I(0), N, subst(c, {k: j})))
    ex.last_trip = N
    # ---- final pass with obligations
    s0 = start()
    if Nh is not None: s0.assume(lt(k, Nh)) if not exits else None
    if exits:
        # k is an iteration that is reached: k <= N
        for f in facts: s0.assume(f)
        s0.assume(le(k, N))
    for g in invs: s0.assume(g)
    if unresolved:
        ex.notes.append('loop at %s: no closed form for %s (over-approximated)' % (loc, ', '.join(str(L.root) + str(L.path) for L in unresolved)))
    if par is not None: race_obligations(ex, s0, mods, k, par, base, loc, fr, nx)
    c, sx, nx, brk, rets, thr = iterate()
    # ---- post states
    def at(state, kk, extra):
        """state expressed at iteration kk, as a post-state of the loop"""
        m = {k: kk}
        memo = {}
        r = State()
        r.pc = base.pc
        for f in facts: r.assume(f)
        for x in state.pc[len(base.pc):]:
            y = subst(x, m, memo)
            r.assume(y)
        f = lambda t: subst(t, m, memo)
        for root, v in state.store.items():
            r.store[root] = vmap(f, v) if root not in base.store or v is not base.store[root] else v
        r.ghost = dict(state.ghost)
        for e in extra: r.assume(e)
        return r
    outs = []
    if par is not None or not exits:
        r = State(); r.pc = base.pc; r.ghost = dict(base.ghost); r.store = dict(base.store)
        for f in facts: r.assume(f)
        for (root, path), L in mods.items():
            t = L.closed if L.closed is not None else L.hav
            r.store[root] = set_leaf(r.store[root], path, subst(t, {k: N}))
        for g in invs: r.assume(subst(g, {k: N}))
        for f in getattr(ex, 'post_facts', []): pass
        if Nh is None:
            r.assume(not_(subst(c, {k: N})))
        # side effects of the failing condition evaluation
        for root in sx.store:
            if root in base.store and sx.store[root] is not s0.store[root]:
                r.store[root] = vmap(lambda t: subst(t, {k: N}), sx.store[root])
        for g in nx.ghost if nx is not None else ():
            if g not in r.ghost: r.ghost[g] = nx.ghost[g]
        # facts assumed in each iteration (callee postconditions) hold for all iterations
        if nx is not None:
            ef = [x for x in nx.pc[len(s0.pc):] if x is not c and not (c.op == 'and' and x in c.a)]
            if ef:
                w = fresh('j', 'I')
                g = and_(*ef)
                g = subst(g, {k: w})
                r.assume(all_(w, I(0), N, g))
        st.become(r)
        for t in thr: pass
        return st
    sxn = at(sx, N, [])
    outs.append(sxn if not sxn.dead() else None)
    for b in brk: outs.append(at(b, N, []))
    for a, v in rets:
        q = at(a, N, [])
        if not q.dead(): fr.rets.append((q, vmap(lambda t: subst(t, {k: N}), v)))
    for a, l in thr:
        q = at(a, N, [])
        if not q.dead(): fr.throws.append((q, l))
    m = merge(outs)
    if m is None:
        st.assume(FALSE); return None
    return m

def exit_cond(c, sx, nx, brk, rets, thr, s0):
    ts = [not_(c)] + [rel(x.pc, s0.pc) for x in brk + [a for a, _ in rets] + [a for a, _ in thr]]
    if nx is None: return TRUE
    return or_(*ts)

def reshape(b, v):
    """give b (a value containing empty containers) the structure of v"""
    if shape_same(b, v): return b
    if isinstance(b, Vec) and isinstance(v, Vec):
        if b.e is None: return Vec(b.n, v.e, v.et)
        e = reshape(b.e, v.e)
        return Vec(b.n, e, b.et) if e is not None else None
    if isinstance(b, Rec) and isinstance(v, Rec) and b.f.keys() == v.f.keys():
        d = {}
        for q in b.f:
            x = reshape(b.f[q], v.f[q])
            if x is None: return None
            d[q] = x
        return Rec(b.t, d)
    if isinstance(b, Undef): return v
    if isinstance(b, Poison): return b
    if isinstance(b, (View, ObjPtr, Null, Ptr)) and (isinstance(v, (View, ObjPtr, Null, Ptr)) or isinstance(v, Opq) and v.tag == 'merged'): return POISON      # a handle rebound to other storage
    return None

def solve_trip(ex, c, k, st, names):
    """closed form of the number of iterations for header condition c(k)"""
    if c is TRUE: return None
    if has_u(c, names): return None
    if not occurs(k, c):
        return None
    ns = []
    for x in conj(c):
        if not occurs(k, x): return None
        n = None
        if x.op == 'le' and x.a[0].s == 'I':
            p = pdict(x.a[0]); a = p.get(((k, 1),))
            rest = mkpoly({m: v for m, v in p.items() if m != ((k, 1),)}, 'I')
            if a == 1 and not occurs(k, rest):
                n = sub(I(1), rest)
            elif a is not None and a > 1 and not occurs(k, rest):
                # a*k + rest <= 0  <=> k <= floor(-rest/a)
                n = add(app('div', 'I', neg(rest), num(a, 'I')), I(1))
        elif x.op == 'not' and x.a[0].op == 'eq' and x.a[0].a[0].s == 'I':
            p = pdict(sub(x.a[0].a[0], x.a[0].a[1])); a = p.get(((k, 1),))
            rest = mkpoly({m: v for m, v in p.items() if m != ((k, 1),)}, 'I')
            if a in (1, -1) and not occurs(k, rest):
                n = scale(rest, -a)
                # i != n terminates by reaching n only if n is ahead
                ex.oblige('termination', st, ge(n, I(0)), '', 'loop with != bound reaches it')
        if n is None: return None
        ns.append(n)
    n = ns[0]
    for m in ns[1:]: n = min_(n, m)
    if isnum(n): return n if val(n) >= 0 else I(0)
    if ex.quick(st, ge(n, I(0))): return n
    return max_(n, I(0))

def additive(v, X):
    d = sub(v, X)
    return d
def resolve(ex, L, n, k, names, nx, s0, par):
    vs = []
    t = n
    X = L.hav
    if L.ss:
        vs = [fresh('i', s) for s in L.ss]
        for v in vs:
            t = lapp(t, v); X = lapp(X, v)
    if vs:
        # one cell i == e is updated, in several cases: decide the cell first, then the case
        if len(vs) == 1:
            for g in dict.fromkeys(x for gg, v in paths(t, X) if v is not X for x in conj(gg)):
                e = solve_eq(g, vs[0])
                if e is None or e is vs[0] or under(t, g, False) is not X: continue
                r1 = under(t, g, True)
                r1 = replace_apps(r1, lambda y: app(y.a[0], y.s, y.a[1], vs[0]) if y.a[0] == L.u and len(y.a) == 3 and y.a[2] is e else None)
                t = ite(g, r1, X); break
        # under the guard i == e a read of cell e is a read of cell i
        ps = paths(t, X); ch = False; out = []
        for g, v in ps:
            if v is not X:
                for x in conj(g):
                    for q, w in enumerate(vs):
                        e = solve_eq(x, w)
                        if e is None or e is w: continue
                        n2 = replace_apps(v, lambda y: app(y.a[0], y.s, *[w if (z - 2 == q and a is e) else a for z, a in enumerate(y.a)][1:]) if y.a[0] == L.u and y.a[2 + q] is e else None)
                        if n2 is not v: v = n2; ch = True
            out.append((g, v))
        if ch:
            r = out[-1][1]
            for g, v in reversed(out[:-1]): r = ite(g, v, r)
            t = r
    t = lift_cases(t, X)
    base = L.base
    for v in vs: base = lapp(base, v)
    def wrapup(r):
        for v in reversed(vs): r = lam(v, r)
        return r
    if t is X: 
        return wrapup(base)
    km1 = sub(k, I(1))
    j = fresh('j', 'I')
    others = names - {L.u}
    # reads of this array at other indices / earlier iterates which are provably untouched so far
    t2 = elim_reads(ex, L, t, X, vs, k, nx, s0, names, par)
    if t2 is not None: t = t2
    if has_u(t, others): return None
    if X.s in ('I', 'R'):
        # additive?
        ps = paths(t, X)
        adds = []
        ok = True
        for g, v in ps:
            if has_u(g, names): ok = False; break
            d = sub(v, X)
            if has_u(d, names): ok = False; break
            adds.append((g, d))
        if ok:
            inc_ = num(0, X.s)
            for g, d in adds: inc_ = add(inc_, ite(g, d, num(0, X.s))) if g is not TRUE else add(inc_, d)
            if len(adds) == 2 and not_(adds[0][0]) is adds[1][0]:
                inc_ = ite(adds[0][0], adds[0][1], adds[1][1])
            if not occurs(k, inc_):
                kk = toreal(k) if X.s == 'R' else k
                if not any(v in freevars(inc_) for v in vs) or True:
                    return wrapup(add(base, mul(kk, inc_)))
            return wrapup(add(base, sum_(j, I(0), k, subst(inc_, {k: j}))))
        # multiplicative?
        ok = True
        muls = []
        for g, v in ps:
            if has_u(g, names): ok = False; break
            f = factor_out(v, X)
            if f is None or has_u(f, names): ok = False; break
            muls.append((g, f))
        if ok and X.s == 'R':
            f = muls[-1][1]
            for g, m in reversed(muls[:-1]): f = ite(g, m, f)
            return wrapup(mul(base, prod_(j, I(0), k, subst(f, {k: j}))))
    if X.s == 'B' and t.op in ('or', 'and', 'ite', 'not') or X.s == 'B':
        if t.op == 'or' and X in t.a:
            e = or_(*[y for y in t.a if y is not X])
            if not has_u(e, names): return wrapup(or_(base, any_(j, I(0), k, subst(e, {k: j}))))
        if t.op == 'and' and X in t.a:
            e = and_(*[y for y in t.a if y is not X])
            if not has_u(e, names): return wrapup(and_(base, all_(j, I(0), k, subst(e, {k: j}))))
        # general boolean update: t[X:=true], t[X:=false]
        t1 = subst_term(t, X, TRUE); t0 = subst_term(t, X, FALSE)
        if not has_u(t1, names) and not has_u(t0, names):
            if t1 is t0: 
                return wrapup(last(j, I(0), k, TRUE, subst(t1, {k: j}), base))
            # t = X&t1 | !X&t0 ; keep = t1 & !t0
            keep = and_(t1, not_(t0))
            return wrapup(last(j, I(0), k, subst(not_(keep), {k: j}), subst(t1, {k: j}), base)) if True else None
    # guarded overwrite
    ps = paths(t, X)
    guard = FALSE; value = None
    for g, v in reversed(ps):
        if has_u(g, names): return None
        if v is X: continue
        if has_u(v, names): 
            return maxmin(ps, X, names, base, k, j, wrapup)
        guard = or_(guard, g)
        value = v if value is None else ite(g, v, value)
    if value is None: return None
    return wrapup(last(j, I(0), k, subst(guard, {k: j}), subst(value, {k: j}), base))

def lift_cases(t, X):
    """conditional factors of the previous value X of a cell (X * ite(c, 0, 1) + ...) as case distinctions"""
    for _ in range(6):
        ps = paths(t, X); ch = False; out = []
        for g, v in ps:
            c = next((x.a[0] for m, _ in v.a if any(y is X for y, e in m) for x, e in m if x.op == 'ite'), None) if v.op == 'poly' else None
            if c is not None: v = ite(c, choose(v, c, True), choose(v, c, False)); ch = True
            if v.op == 'last' and v.a[4] is X:      # conditions on the cell alone
                lo, hi, q, e, dflt, b = v.a; free = [x for x in conj(q) if not occurs(b, x)]
                if free: v = ite(and_(*free), last(b, lo, hi, and_(*[x for x in conj(q) if x not in free]), e, dflt), dflt); ch = True
            out.append((g, v))
        if not ch: return t
        r = out[-1][1]
        for g, v in reversed(out[:-1]): r = ite(g, v, r)
        t = r
    return t
def maxmin(ps, X, names, base, k, j, wrapup):
    return None

def subst_term(t, X, v):
    return replace_apps(t, lambda y: v if y is X else None)

def factor_out(v, X):
    p = pdict(v)
    out = {}
    for m, c in p.items():
        d = dict(m)
        if d.get(X) != 1: return None
        del d[X]
        out[tuple(sorted(d.items(), key=lambda q: q[0].id))] = c
    return mkpoly(out, v.s)

def elim_reads(ex, L, t, X, vs, k, nx, s0, names, par):
    """replace reads U(k, e) of earlier iterates by the pre-loop value where no earlier iteration wrote cell e"""
    if not L.ss: return None
    us = collect_u(t, L.u)
    us = [u for u in us]
    if all(u is X for u in us) and not any(True for g, v in paths(t, X) if v is not X and not is_add(v, X)): return None
    ps = paths(t, X)
    # write guard: cells changed in iteration k
    guards = []
    for g, v in ps:
        if v is not X: guards.append(g)
    G = or_(*guards)
    if has_u(G, names): return None
    kp = fresh('kp', 'I')
    bad = [False]
    def written_before(idx, ctx):
        m = dict(zip(vs, idx)); m[k] = kp
        w = subst(G, m)
        if w is FALSE: return False
        hy = s0.clone()
        for c in ctx: hy.assume(c)
        hy.assume(ge(kp, I(0)))
        if par is None: hy.assume(lt(kp, k))
        else: hy.assume(lt(kp, par)); hy.assume(ne(kp, k))
        return not ex.quick(hy, not_(w), 500)
    out = []
    changed = False
    stay = list(nx.pc[len(s0.pc):])
    for g, v in ps:
        if v is X or is_add(v, X) and not any(u is not X for u in collect_u(v, L.u)) and par is None and not injective(ex, G, vs, k, s0):
            out.append((g, v)); continue
        def f(y):
            if y.a[0] == L.u:
                idx = y.a[2:]
                if any(b.op == 'bv' for b in freevars(y)): return None
                if not written_before(idx, stay + [g]):
                    b = L.base
                    for i in idx: b = lapp(b, i)
                    return b
            return None
        g2 = replace_apps(g, f)
        v2 = replace_apps(v, f)
        if v2 is not v or g2 is not g: changed = True
        out.append((g2, v2))
    if not changed: return None
    r = out[-1][1]
    for g, v in reversed(out[:-1]): r = ite(g, v, r)
    return r
def is_add(v, X):
    if X.s not in ('I', 'R'): return False
    d = sub(v, X)
    return not has_term(d, X)
def injective(ex, G, vs, k, s0):
    """each cell written by at most one iteration?"""
    for v in vs:
        for x in conj(G):
            e = solve_eq(x, k)
            if e is not None: return True
    return False

# ---------------------------------------------------------------- recurrences against spec functions
class Hint:
    """spec function family P(n): cand(n) -> T, with defining facts facts(n) -> [T] valid for every n satisfying their guards"""
    def __init__(self, name, f, facts, shifts=(-2, -1, 0, 1, 2, 3)):
        self.name = name; self.f = f; self.facts = facts; self.shifts = shifts

def use_hints(ex, leaves_, nx, s0, k):
    """match unresolved loop variables against contract-supplied specification functions (base case and step are proved)"""
    import tactic
    if not ex.hints or not leaves_: return False
    zero = I(0)
    names = {L.u: L for L in leaves_}
    upd = {L: get_leaf(nx.store[L.root], L.path) for L in leaves_}
    deps = {L: {x.a[0] for x in subterms_apps(upd[L]) if x.a[0] in names} for L in leaves_}
    # conditions of the update may also mention unresolved iterates
    def closure(L):
        out = set(); todo = [L.u]
        while todo:
            u = todo.pop()
            if u in out: continue
            out.add(u)
            todo += list(deps[names[u]])
        return frozenset(out)
    groups = sorted({closure(L) for L in leaves_}, key=len)
    hyp0 = list(ex.hyps) + list(s0.pc)
    facts0 = [f for h in ex.hints for d in range(0, 5) for f in h.facts(I(d))]
    factsk = [f for h in ex.hints for d in range(-3, 5) for f in h.facts(add(k, I(d)))] + facts0
    cond0 = [y for y in (subst(x, {k: zero}) for x in nx.pc[len(s0.pc):] if not has_u(x, set(names))) if y is not TRUE]
    def cands(L):
        out = []
        if not L.ss and L.rs in ('R', 'I'):
            for h in ex.hints:
                for d in h.shifts:
                    t = h.f(add(k, I(d)))
                    if t.s != L.rs: continue
                    b = subst(t, {k: zero})
                    if eq(b, L.base) is TRUE or tactic.elim_prove(hyp0 + facts0, eq(b, L.base), 300): out.append(t)
                    elif cond0 and L.base.op == 'ite' and tactic.elim_prove(hyp0 + facts0 + cond0, eq(b, L.base), 300):
                        # agrees with the initial value whenever the loop is entered
                        out.append(ite(le(k, zero), L.base, t))
        elif L.ss == ['I']:
            i = fresh('i', 'I')
            n = lapp(upd[L], i)
            X = lapp(L.hav, i)
            starts = []
            for g, v in paths(n, X):
                if v is X: continue
                for x in conj(g):
                    e = solve_eq(x, i)
                    if e is not None and not occurs(k, sub(e, k)): starts.append(sub(e, k))
            for stt in list(dict.fromkeys(starts)):
                for h in ex.hints:
                    for d in (0, 1, 2, 3):
                        P = h.f(add(sub(i, stt), I(d)))
                        if P.s != L.rs: continue
                        body = ite(and_(le(stt, i), lt(i, add(stt, k))), P, lapp(L.base, i))
                        out.append(lam(i, body))
        return list(dict.fromkeys(out))
    cc = {}
    def step_ok(L, asg):
        by = {x.u: (x, t) for x, t in asg.items()}
        def f(y):
            if y.a[0] in by:
                M, t = by[y.a[0]]
                r = subst(t, {k: y.a[1]}) if y.a[1] is not k else t
                for a in y.a[2:]: r = lapp(r, a)
                return r
            return None
        t = asg[L]
        n = replace_apps(upd[L], f)
        tgt = subst(t, {k: add(k, I(1))})
        fs = list(factsk)
        if L.ss:
            i = fresh('i', 'I')
            n = lapp(n, i); tgt = lapp(tgt, i)
            for h in ex.hints:
                for d in range(-2, 3): fs += h.facts(add(i, I(d)))
        if has_u(n, set(names)): return False
        if eq(n, tgt) is TRUE: return True
        pcs = [replace_apps(x, f) for x in nx.pc]
        pcs = [x for x in pcs if not has_u(x, set(names))]
        r_ = tactic.elim_prove(list(ex.hyps) + pcs + fs, eq(n, tgt), 1500)
        if DBG: print("STEP", L.root, r_, n, "==", tgt, [z for z in pcs])
        return r_
    for grp in groups:
        ls = [names[u] for u in grp]
        if len(ls) > 5: continue
        for L in ls:
            if L not in cc: cc[L] = cands(L)
        if DBG: print('GRP', [(L.root, L.path, cc[L]) for L in ls])
        if any(not cc[L] for L in ls): continue
        ls.sort(key=lambda L: len(cc[L]))
        # depth-first assignment; a leaf is checked as soon as everything it depends on is assigned
        checked = {}
        def dfs(n, asg):
            if n == len(ls): return dict(asg)
            L = ls[n]
            for t in cc[L]:
                asg[L] = t
                ok = True
                done = {x.u for x in ls[:n + 1]}
                for M in ls[:n + 1]:
                    if deps[M] <= done and (M is L or L.u in deps[M]):
                        key = (M, tuple(asg[names[u]] for u in sorted(deps[M] | {M.u})))
                        if key not in checked: checked[key] = step_ok(M, {names[u]: asg[names[u]] for u in deps[M] | {M.u}})
                        if not checked[key]: ok = False; break
                if ok:
                    r = dfs(n + 1, asg)
                    if r: return r
                del asg[L]
            return None
        r = dfs(0, {})
        if r:
            for L, t in r.items(): L.closed = t
            return True
    return False
def subterms_apps(t): return [x for x in subterms(t) if x.op == 'app']

# ---------------------------------------------------------------- invariants for what has no closed form
def infer_invariants(ex, unresolved, mods, base, s0, fr, cond, inc, body, k, Nh, c):
    """Houdini over candidate invariants supplied by the contract (ex.invs: f(ex, base, s0, k) -> list of T)"""
    import tactic
    cands = []
    for f in ex.invs:
        cands += f(ex, base, s0, k, unresolved)
    # automatic candidates for integer scalars: sign and bounds against the initial value
    for L in unresolved:
        if not L.ss and L.rs == 'I':
            cands += [ge(L.hav, I(0)), ge(L.hav, L.base), le(L.hav, L.base)]
    if not getattr(ex, 'plain_invs', False): cands += running_extremes(unresolved, s0, ex, fr, cond, inc, body, k)
    cands = list(dict.fromkeys(c for c in cands if c is not TRUE))
    # init
    keep = []
    sub0 = {L.u: L for L in unresolved}
    def at0(t):
        def f(y):
            if y.a[0] in sub0 and y.a[1] is I(0):
                r = sub0[y.a[0]].base
                for a in y.a[2:]: r = lapp(r, a)
                return r
        return replace_apps(subst(t, {k: I(0)}), f)
    for g in cands:
        if ex.quick(base, at0(g), 1500): keep.append(g)
    while keep:
        s = s0.clone()
        for g in keep: s.assume(g)
        if Nh is not None: s.assume(lt(k, Nh))
        ex.dry += 1
        try: _, _, nx, _, _, _ = one_iter(ex, s, fr, cond, inc, body)
        finally: ex.dry -= 1
        if nx is None: break
        def atn(t):
            t = subst(t, {k: add(k, I(1))})
            def f(y):
                if y.a[0] in sub0 and y.a[1] is add(k, I(1)):
                    L = sub0[y.a[0]]
                    r = get_leaf(nx.store[L.root], L.path)
                    for a in y.a[2:]: r = lapp(r, a)
                    return r
            return replace_apps(t, f)
        local = list(nx.pc[len(base.pc):])      # the candidates and what this iteration learnt
        bad = [g for g in keep if not (smt.prove(*generalised(local, atn(g)), timeout=1000, rounds=1).ok or ex.quick(nx, atn(g), 1500) or tactic.elim_prove(list(ex.hyps) + list(nx.pc), atn(g), 3000))]
        if DBG and bad: print('BAD', [(local, atn(g)) for g in bad][-1:])
        if not bad: break
        keep = [g for g in keep if g not in bad]
    if DBG: print("INV", keep, "of", cands)
    return keep

# ---------------------------------------------------------------- parallel regions
def generalised(hyps, goal):
    """a stronger statement: ground operator terms replaced by arbitrary values"""
    ops = sorted({x for t in hyps + [goal] for x in smt.gops(t) if x.op in ('sum', 'prod', 'first', 'last')}, key=lambda x: -x.id)
    m = {x: fresh('g', x.s) for x in ops}
    f = lambda t: replace_terms(t, m)
    return [f(h) for h in hyps], f(goal)

def running_extremes(unresolved, s0, ex, fr, cond, inc, body, k):
    """candidates for a running maximum or minimum: x' is x or an element; x bounds the elements seen and is the initial value or one of them"""
    out = []; names = {L.u for L in unresolved}
    ls = [L for L in unresolved if not L.ss and L.rs in ('I', 'R')]
    if not ls: return out
    ex.dry += 1
    try: _, _, nx, _, _, _ = one_iter(ex, s0, fr, cond, inc, body)
    finally: ex.dry -= 1
    if nx is None: return out
    for L in ls:
        n = get_leaf(nx.store[L.root], L.path)
        if n is None: continue
        es = []
        for g, v in paths(n, L.hav):
            if v is L.hav: continue
            if has_u(v, names): es = None; break
            es.append((and_(*[x for x in conj(g) if not has_u(x, names)]), v))
        if not es or len(es) > 3: continue
        j = fresh('j', 'I'); at = lambda t: subst(t, {k: j})
        for rel_ in (ge, le):
            out.append(and_(*[all_(j, I(0), k, imp(at(g), rel_(L.hav, at(v)))) for g, v in es]))
            out.append(rel_(L.hav, L.base))
        out.append(or_(eq(L.hav, L.base), *[any_(j, I(0), k, and_(at(g), eq(L.hav, at(v)))) for g, v in es]))
    return out

def race_obligations(ex, s0, mods, k, par, base, loc, fr, nx):
    if nx is None: return
    k2 = fresh('k2', 'I')
    for (root, path), L in mods.items():
        if _rootname(root) == 'pi': continue      # the loop index itself
        t = get_leaf(nx.store[L.root], L.path) if L.root in nx.store else None
        if t is None: continue
        cur = L.closed if L.closed is not None else L.hav
        vs = []
        a, b = t, cur
        if L.ss:
            vs = [fresh('i', s) for s in L.ss]
            for v in vs: a = lapp(a, v); b = lapp(b, v)
        # cells written: those where the value may differ syntactically
        G = write_guard(a, b, vs)
        st = s0.clone(); st.assume(ge(k2, I(0))); st.assume(lt(k2, par)); st.assume(ne(k, k2))
        ex.oblige('race', st, not_(and_(G, subst(G, {k: k2}))), loc, 'parallel iterations write disjoint cells of %s' % _rootname(root))
        if L.closed is None:
            ex.oblige('race', s0, FALSE, loc, 'iteration of a parallel region depends on cells of %s written by other iterations' % _rootname(root))
def _rootname(r):
    import re
    return re.sub(r'\d+(\.\d+)?$', '', str(r))
def write_guard(a, b, vs=()):
    """condition under which a differs syntactically from b (vs: the cell indices)"""
    if a is b: return FALSE
    if a.op == 'last' and a.a[4] is b:
        lo, hi, q, e, dflt, w = a.a; free = [x for x in conj(q) if not occurs(w, x)]; r = fresh('r', 'I')
        return and_(*free, any_(r, lo, hi, subst(and_(*[x for x in conj(q) if x not in free]), {w: r})))
    if a.op == 'ite': c = a.a[0]
    elif b.op == 'ite': c = b.a[0]
    elif a.op == 'app' and b.op == 'app' and a.a[0] == b.a[0] and len(a.a) == len(b.a) and all(x.s != 'L' for x in a.a[1:]):
        return or_(*[ne(x, y) for x, y in zip(a.a[1:], b.a[1:])])
    else:
        c = next((x.a[0] for p in (a, b) if p.op == 'poly' for m, _ in p.a for x, e in m if x.op == 'ite'), None)
        if c is None: return TRUE
    def g(t, v):
        t = choose(t, c, v) if t.op == 'poly' else under(t, c, v)
        return t
    a1, b1 = g(a, True), g(b, True)
    for x in conj(c):                 # a cell index fixed by the condition
        if x.op != 'eq': continue
        for v in vs:
            e = solve_for(x, v)
            if e is not None:
                a1, b1 = subst(a1, {v: e}), subst(b1, {v: e}); break
    return or_(and_(c, write_guard(a1, b1, vs)), and_(not_(c), write_guard(g(a, False), g(b, False), vs)))
def solve_for(x, v):
    """t with x equivalent to v == t (v not in t), for an integer equation"""
    l, r = x.a
    if l.s != 'I': return None
    d = sub(l, r); p = pdict(d)
    cf = p.get(((v, 1),))
    if cf not in (1, -1): return None
    t = mkpoly({m: -w / cf for m, w in p.items() if m != ((v, 1),)}, 'I')
    return None if occurs(v, t) else t
def under(t, c, v):
    """t with the outer conditionals simplified by c (v: c holds, otherwise its negation)"""
    if t.op != 'ite': return t
    known = conj(c if v else not_(c))
    def lit(x):
        if x in known: return TRUE
        if not_(x) in known: return FALSE
        if x.op == 'and': return and_(*[lit(y) for y in x.a])
        if x.op == 'or': return or_(*[lit(y) for y in x.a])
        return x
    def go(t):
        if t.op != 'ite': return t
        g = lit(t.a[0])
        if g is TRUE: return go(t.a[1])
        if g is FALSE: return go(t.a[2])
        return ite(g, go(t.a[1]), go(t.a[2]))
    return go(t)
