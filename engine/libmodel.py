"""Assumed contracts (trusted base) for the libraries the code under verification calls: C math, std containers,
Kokkos views / subviews / parallel dispatch."""
from terms import *
import terms as TM
from vals import *
import smt, math, loops, os

LIB = {}
LIBCLS = {}
def lib(*names):
    def d(f):
        for n in names: LIB[n] = f
        return f
    return d
def cls(tn, *ms):
    def d(f):
        c = LIBCLS.setdefault(tn, {})
        for m in ms: c[m] = f
        return f
    return d

def V_(ex, st, c, i): return ex.val(st, c.args[i])
def RV(ex, st, c, i):
    v = V_(ex, st, c, i)
    if isinstance(v, T) and v.s != 'R': v = toreal(v)
    return v

# ------------------------------------------------------------------ math
def fun1(name):
    def h(ex, st, c):
        x = RV(ex, st, c, 0)
        return mathapp(name, x)
    return h
def mathapp(name, x):
    if x.op == 'ite': return ite(x.a[0], mathapp(name, x.a[1]), mathapp(name, x.a[2]))
    if x.op == 'poly' and x.h == 0:
        cs = {y.a[0] for m, _ in x.a for y, e in m if y.op == 'ite'}
        if len(cs) == 1:
            from loops import choose
            c = next(iter(cs))
            return ite(c, mathapp(name, choose(x, c, True)), mathapp(name, choose(x, c, False)))
    if isnum(x):
        v = val(x)
        if name == 'exp' and v == 0: return R(1)
        if name in ('sin', 'tanh', 'erf', 'log1p', 'expm1', 'sinh') and v == 0: return R(0)
        if name == 'cos' and v == 0: return R(1)
        if name == 'log' and v == 1: return R(0)
        if name == 'sqrt' and v >= 0:
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator: return R(Fraction(n, d))
        if name == 'log2' and v > 0 and v.denominator == 1 and (int(v) & (int(v) - 1)) == 0: return R(int(v).bit_length() - 1)
    if name == 'exp':
        # canonical sign: exp(-x) = 1/exp(x)
        p = sorted(pdict(x).items(), key=lambda q: [(v.id, e) for v, e in q[0]])
        ns = [c for m, c in p if m] or [c for m, c in p]
        if ns[0] < 0: return inv(app('exp', 'R', neg(x)))
    return app(name, 'R', x)
for n in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'log1p', 'expm1', 'erf', 'log2', 'log10', 'tgamma', 'lgamma', 'acos', 'asin', 'atan'):
    for q in (n, 'std::' + n, 'Kokkos::' + n): LIB[q] = fun1(n)
    TM.REBUILD[n] = (lambda nm: lambda x: mathapp(nm, x))(n)
@lib('fabs', 'std::abs', 'abs', 'std::fabs', 'Kokkos::fabs', 'Kokkos::abs')
def _(ex, st, c):
    x = V_(ex, st, c, 0)
    z = num(0, x.s)
    return ite(ge(x, z), x, neg(x))
@lib('fmin', 'std::fmin', 'std::min', 'Kokkos::fmin')
def _(ex, st, c):
    a, b = V_(ex, st, c, 0), V_(ex, st, c, 1)
    if a.s != b.s: a, b = toreal(a), toreal(b)
    return ite(lt(b, a), b, a)
@lib('fmax', 'std::fmax', 'std::max', 'Kokkos::fmax')
def _(ex, st, c):
    a, b = V_(ex, st, c, 0), V_(ex, st, c, 1)
    if a.s != b.s: a, b = toreal(a), toreal(b)
    return ite(lt(a, b), b, a)
@lib('pow', 'std::pow', 'Kokkos::pow')
def _(ex, st, c):
    a, b = RV(ex, st, c, 0), RV(ex, st, c, 1)
    return powr(a, b)
def powr(a, b):
    if isnum(b) and val(b).denominator == 1:
        n = int(val(b))
        if 0 <= n <= 12: return powi(a, n)
        if -12 <= n < 0: return inv(powi(a, -n))
    if isnum(b) and abs(val(b)) in (Fraction(1, 2), Fraction(1, 4)):
        r = mathapp('sqrt', a)
        if abs(val(b)) == Fraction(1, 4): r = mathapp('sqrt', r)
        return r if val(b) > 0 else inv(r)
    return app('pow', 'R', a, b)
TM.REBUILD['pow'] = powr
@lib('ceil', 'std::ceil')
def _(ex, st, c):
    x = RV(ex, st, c, 0)
    if isnum(x): return R(math.ceil(val(x)))
    return toreal(app('ceil', 'I', x))
@lib('floor', 'std::floor')
def _(ex, st, c):
    x = RV(ex, st, c, 0)
    if isnum(x): return R(math.floor(val(x)))
    return toreal(app('floor', 'I', x))
@smt.lem('ceil')
def _(t):
    x = t.a[1]; r = toreal(t)
    out = [ge(r, x), lt(r, add(x, R(1)))]
    p = pdict(x)
    if len(p) == 1:
        (m, k), = p.items()
        for a, e in m:
            if a.op == 'app' and a.a[0] == 'inv' and e == 1:
                b = a.a[1]
                rest = mkpoly({tuple(q for q in m if q[0] is not a): k}, 'R')
                out.append(imp(gt(b, R(0)), ge(mul(r, b), rest)))
                out.append(imp(gt(b, R(0)), lt(mul(r, b), add(rest, b))))
    return out
@smt.lem('floor')
def _(t):
    x = t.a[1]; r = toreal(t)
    return [le(r, x), gt(add(r, R(1)), x)]
@lib('std::isnan', 'isnan')
def _(ex, st, c): return app('isnan', 'B', RV(ex, st, c, 0))
@lib('std::isinf', 'isinf')
def _(ex, st, c): return app('isinf', 'B', RV(ex, st, c, 0))
@lib('std::isfinite', 'isfinite')
def _(ex, st, c): return app('isfinite', 'B', RV(ex, st, c, 0))
@lib('std::numeric_limits::quiet_NaN')
def _(ex, st, c): return sym('NaN', 'R')
@lib('std::numeric_limits::infinity')
def _(ex, st, c): return sym('Inf', 'R')
@lib('std::numeric_limits::epsilon')
def _(ex, st, c):
    return R(Fraction(repr(2.220446049250313e-16)))
@lib('std::numeric_limits::max')
def _(ex, st, c):
    ty = c.fr.prog.types[c.f['ret']]
    if ty['k'] == 'real': return sym('DBL_MAX', 'R')
    return I((1 << (ty['bits'] - (1 if ty['sg'] else 0))) - 1)
@lib('std::numeric_limits::min', 'std::numeric_limits::lowest')
def _(ex, st, c):
    ty = c.fr.prog.types[c.f['ret']]
    if ty['k'] == 'real': return sym('DBL_MIN', 'R')
    return I(-(1 << (ty['bits'] - 1)) if ty['sg'] else 0)
@lib('printf', 'Kokkos::fence', 'std::operator<<', 'std::basic_ostream::operator<<', 'std::endl', 'std::cout', 'Kokkos::Impl::unused', 'fprintf')
def _(ex, st, c): return c.args[0] if c.args else UNDEF
@lib('__assert_fail')
def _(ex, st, c):
    ex.oblige('assert', st, FALSE, c.loc, 'assert(false) reached')
    st.assume(FALSE)
    return UNDEF
@lib('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::addressof')
def _(ex, st, c): return c.args[0]
@lib('std::swap')
def _(ex, st, c):
    a, b = c.args
    x, y = ex.load(st, a), ex.load(st, b)
    ex.store(st, a, y); ex.store(st, b, x)
    return UNDEF
# ------------------------------------------------------------------ strings / streams / exceptions: opaque
for tn in ('std::basic_string', 'std::basic_stringstream', 'std::allocator', 'std::runtime_error', 'std::invalid_argument', 'std::out_of_range', 'std::logic_error',
           'std::basic_ostream', 'std::exception', 'std::unordered_map', 'std::basic_ostringstream', 'std::domain_error', 'std::basic_ofstream', 'std::basic_ifstream'):
    def mk_(tn):
        def ctor(ex, st, c): return Opq(tn)
        def dflt(ex, st, ty, prog): return Opq(tn)
        def mksym(ex, st, ty, name, idx, prog): return Opq(tn, name)
        LIBCLS.setdefault(tn, {}).update(ctor=ctor, default=dflt, mksym=mksym)
        for m in ('c_str', 'str', 'operator<<', 'operator=', 'operator+=', 'what', 'append'):
            LIBCLS[tn][m] = lambda ex, st, c: c.obj if m != 'c_str' else Opq('str')
    mk_(tn)
@lib('std::operator+', 'std::to_string')
def _(ex, st, c): return string()
# ---- strings are compared only: an identity per contents (distinct literals have distinct identities)
LITS = {}
def string(v=None): return Rec('std::basic_string', {'id': fresh('str', 'I') if v is None else v})
def string_of(ex, st, a):
    v = ex.val(st, a)
    if isinstance(v, Rec): return v
    if isinstance(v, Opq) and v.tag == 'str' and isinstance(v.data, str): return string(I(LITS.setdefault(v.data, len(LITS) + 1)))
    return string()
LIBCLS['std::basic_string'].update(ctor=lambda ex, st, c: string_of(ex, st, c.args[0]) if c.args else string(I(LITS.setdefault('', len(LITS) + 1))),
    default=lambda ex, st, ty, prog: string(I(LITS.setdefault('', len(LITS) + 1))), mksym=lambda ex, st, ty, name, idx, prog: string(sym(name + '.id', 'I')))
def str_asg(ex, st, c): ex.store(st, c.obj, string_of(ex, st, c.args[0])); return c.obj
LIBCLS['std::basic_string']['operator='] = str_asg
def str_mut(ex, st, c): ex.store(st, c.obj, string()); return c.obj
for m in ('operator+=', 'append'): LIBCLS['std::basic_string'][m] = str_mut
# ---- std::map with string keys, read only: presence and value per literal key
def map_key(ex, st, c):
    k = string_of(ex, st, c.args[0]).f['id']; m = ex.val(st, c.obj)
    if not isinstance(m, Rec): raise Unsupported('map')
    return m.f['id'], k
def map_count(ex, st, c):
    i, k = map_key(ex, st, c); return ite(eq(i, I(0)), I(0), ite(app('haskey', 'B', i, k), I(1), I(0)))
def map_at(ex, st, c):
    i, k = map_key(ex, st, c)
    ex.oblige('precondition', st, and_(not_(eq(i, I(0))), app('haskey', 'B', i, k)), c.loc, 'the key is present')
    return ex.newroot(st, string(app('mapval', 'I', i, k)), 'mapval')
LIBCLS['std::map'] = dict(ctor=lambda ex, st, c: ex.val(st, c.args[0]) if c.args else Rec('std::map', {'id': I(0)}), default=lambda ex, st, ty, prog: Rec('std::map', {'id': I(0)}),
    mksym=lambda ex, st, ty, name, idx, prog: Rec('std::map', {'id': sym(name + '.id', 'I')}), count=map_count, at=map_at)
LIBCLS['std::map']['operator[]'] = map_at
@lib('std::stod')
def _(ex, st, c): return app('stod', 'R', string_of(ex, st, c.args[0]).f['id'])

# ------------------------------------------------------------------ std::pair / tuple
def pair_rec(a, b): return Rec('std::pair', {'first': a, 'second': b})
@lib('std::make_pair')
def _(ex, st, c): return pair_rec(V_(ex, st, c, 0), V_(ex, st, c, 1))
@cls('std::pair', 'ctor')
def _(ex, st, c):
    if len(c.args) == 2: return pair_rec(V_(ex, st, c, 0), V_(ex, st, c, 1))
    if len(c.args) == 1: return V_(ex, st, c, 0)
    return LIBCLS['std::pair']['default'](ex, st, c.t, c.fr.prog)
@cls('std::pair', 'default')
def _(ex, st, ty, prog):
    return pair_rec(ex.default_value(st, ty['ta'][0]['ty'], prog), ex.default_value(st, ty['ta'][1]['ty'], prog))
@cls('std::pair', 'mksym')
def _(ex, st, ty, name, idx, prog):
    return pair_rec(ex.mksym(st, ty['ta'][0]['ty'], name + '.first', idx, prog), ex.mksym(st, ty['ta'][1]['ty'], name + '.second', idx, prog))

# ------------------------------------------------------------------ std::vector
def vec_elem_ty(ty, prog): return ty['ta'][0]['ty']
def vec_default(ex, st, ty, prog): return Vec(I(0), None, vec_elem_ty(ty, prog))
def vec_mksym(ex, st, ty, name, idx, prog):
    n = ex.leafsym(name + '.size', 'I', idx)
    h = ge(n, I(0))
    for v in idx: h = forall(v, h)
    ex.hyps.append(h)
    w = fresh('w', 'I')
    e = ex.mksym(st, vec_elem_ty(ty, prog), name, tuple(idx) + (w,), prog)
    return Vec(n, lift(e, w), vec_elem_ty(ty, prog))
def vec_fill(ex, st, n, v, et=None):
    w = fresh('w', 'I')
    return Vec(n, lift(v, w), et)
def vec_ctor(ex, st, c):
    prog = c.fr.prog
    et = vec_elem_ty(c.t, prog)
    a = c.args
    ps = c.f['ps']
    if not a: return Vec(I(0), None, et)
    v0 = ex.val(st, a[0])
    if isinstance(v0, Vec): return Vec(v0.n, v0.e, et)
    if isinstance(v0, T) and v0.s == 'I':
        if len(a) >= 2 and prog.unref(ps[1]['t'])['k'] != 'rec' or (len(a) >= 2 and prog.unref(ps[1]['t']).get('tn') != 'std::allocator'):
            x = ex.val(st, a[1])
            return vec_fill(ex, st, v0, x, et)
        return vec_fill(ex, st, v0, ex.default_value(st, et, prog, zero=True), et)
    if isinstance(v0, Ptr) and len(a) >= 2:
        v1 = ex.val(st, a[1])
        n = sub(v1.off, v0.off)
        ex.oblige('bounds', st, ge(n, I(0)), c.loc, 'iterator range is ordered')
        arr = ex.load(st, v0.base)
        w = fresh('w', 'I')
        e = lift(unlift(arr, add(w, v0.off)), w)
        return Vec(n, e, et)
    if isinstance(v0, Opq) and v0.tag == 'std::allocator': return Vec(I(0), None, et)
    raise Unsupported('vector ctor from %r' % (v0,))
LIBCLS['std::vector'] = dict(ctor=vec_ctor, default=vec_default, mksym=vec_mksym)
LIBCLS['std::initializer_list'] = dict(ctor=vec_ctor, default=vec_default, mksym=vec_mksym)
LIBCLS['std::array'] = dict(mksym=vec_mksym)
def arr_default(ex, st, ty, prog):
    return vec_fill(ex, st, I(int(ty['ta'][1]['int'])), ex.default_value(st, ty['ta'][0]['ty'], prog), ty['ta'][0]['ty'])
LIBCLS['std::array']['default'] = arr_default
def VEC(*ms):
    def d(f):
        for tn in ('std::vector', 'std::initializer_list', 'std::array'):
            for m in ms: LIBCLS[tn][m] = f
        return f
    return d
def vobj(ex, st, c):
    v = ex.val(st, c.obj)
    if not isinstance(v, Vec): raise Unsupported('not a vector: %r' % (v,))
    return v
def oref(ex, st, c):
    if not isinstance(c.obj, Ref): c.obj = ex.newroot(st, c.obj)
    return c.obj
@VEC('size')
def _(ex, st, c): return vobj(ex, st, c).n
@VEC('empty')
def _(ex, st, c): return eq(vobj(ex, st, c).n, I(0))
@VEC('operator[]')
def _(ex, st, c):
    v = vobj(ex, st, c); i = V_(ex, st, c, 0)
    if ex.bounds: ex.oblige('bounds', st, and_(ge(i, I(0)), lt(i, v.n)), c.loc, 'vector index in range')
    return oref(ex, st, c).sub(('ix', i))
IMPL = {}
def implied(ex, st, goal):
    """cheap entailment from the linear facts of the path (used only to discard infeasible exceptional paths)"""
    from loops import subterms
    hs = []
    for h in list(ex.hyps) + list(st.pc):
        for x in (h.a if h.op == 'and' else (h,)):
            if x.op in ('le', 'eq', 'or', 'not') and not any(y.op in ('sum', 'prod', 'all', 'any', 'lam') for y in subterms(x)): hs.append(x)
    k = (goal, tuple(hs))
    if k not in IMPL: IMPL[k] = smt.prove(hs, goal, timeout=400, rounds=0).ok
    return IMPL[k]
@VEC('at')
def _(ex, st, c):
    v = vobj(ex, st, c); i = V_(ex, st, c, 0)
    ok = and_(ge(i, I(0)), lt(i, v.n))
    if ok is not TRUE and not implied(ex, st, ok):
        s2 = st.clone(); s2.assume(not_(ok))
        if not s2.dead(): c.fr.throws.append((s2, c.loc))
        st.assume(ok)
    return oref(ex, st, c).sub(('ix', i))
@VEC('back')
def _(ex, st, c):
    v = vobj(ex, st, c)
    if ex.bounds: ex.oblige('bounds', st, ge(v.n, I(1)), c.loc, 'back() of a non-empty vector')
    return oref(ex, st, c).sub(('ix', sub(v.n, I(1))))
@VEC('front')
def _(ex, st, c):
    v = vobj(ex, st, c)
    if ex.bounds: ex.oblige('bounds', st, ge(v.n, I(1)), c.loc, 'front() of a non-empty vector')
    return oref(ex, st, c).sub(('ix', I(0)))
@VEC('push_back', 'emplace_back')
def _(ex, st, c):
    v = vobj(ex, st, c)
    if c.args: x = V_(ex, st, c, 0)
    else: x = ex.default_value(st, v.et if v.et is not None else vec_elem_ty(c.fr.prog.types[c.f['cls']], c.fr.prog), c.fr.prog, zero=True)
    r = oref(ex, st, c)
    nv = Vec(add(v.n, I(1)), wr_lift(v.e, v.n, (), x) if v.e is not None else lift(x, fresh('w', 'I')), v.et)
    ex.store(st, r, nv)
    return r.sub(('ix', v.n))
@VEC('pop_back')
def _(ex, st, c):
    v = vobj(ex, st, c)
    if ex.bounds: ex.oblige('bounds', st, ge(v.n, I(1)), c.loc, 'pop_back of a non-empty vector')
    ex.store(st, oref(ex, st, c), Vec(sub(v.n, I(1)), v.e, v.et)); return UNDEF
@VEC('resize')
def _(ex, st, c):
    v = vobj(ex, st, c); n = V_(ex, st, c, 0)
    et = v.et if v.et is not None else vec_elem_ty(c.fr.prog.types[c.f['cls']], c.fr.prog)
    x = V_(ex, st, c, 1) if len(c.args) > 1 else ex.default_value(st, et, c.fr.prog, zero=True)
    w = fresh('w', 'I')
    if v.e is None: e = lift(x, w)
    else: e = lift(vite(lt(w, v.n), unlift(v.e, w), x), w)
    ex.store(st, oref(ex, st, c), Vec(n, e, et)); return UNDEF
@VEC('clear')
def _(ex, st, c):
    v = vobj(ex, st, c)
    ex.store(st, oref(ex, st, c), Vec(I(0), v.e, v.et)); return UNDEF
@VEC('reserve', 'shrink_to_fit')
def _(ex, st, c): return UNDEF
@VEC('begin', 'cbegin', 'data')
def _(ex, st, c): return Ptr(oref(ex, st, c).sub('#e'), I(0))
@VEC('end', 'cend')
def _(ex, st, c): return Ptr(oref(ex, st, c).sub('#e'), vobj(ex, st, c).n)
@VEC('erase')
def _(ex, st, c):
    v = vobj(ex, st, c)
    a = V_(ex, st, c, 0)
    if len(c.args) > 1:
        b = V_(ex, st, c, 1); lo, hi = a.off, b.off
    else: lo, hi = a.off, add(a.off, I(1))
    if ex.bounds: ex.oblige('bounds', st, and_(ge(lo, I(0)), le(lo, hi), le(hi, v.n)), c.loc, 'erase of a valid range')
    w = fresh('w', 'I'); d = sub(hi, lo)
    e = lift(vite(lt(w, lo), unlift(v.e, w), unlift(v.e, add(w, d))), w)
    ex.store(st, oref(ex, st, c), Vec(sub(v.n, d), e, v.et))
    return Ptr(oref(ex, st, c).sub('#e'), lo)
@VEC('insert', 'emplace')
def _(ex, st, c):
    v = vobj(ex, st, c)
    a = V_(ex, st, c, 0); x = V_(ex, st, c, 1)
    if len(c.args) > 2: raise Unsupported('vector range insert')
    p = a.off
    if v.e is None: e = lift(x, fresh('w', 'I'))
    else:
        if ex.bounds: ex.oblige('bounds', st, and_(ge(p, I(0)), le(p, v.n)), c.loc, 'insert position in range')
        w = fresh('w', 'I')
        e = lift(vite(lt(w, p), unlift(v.e, w), vite(eq(w, p), x, unlift(v.e, sub(w, I(1))))), w)
    ex.store(st, oref(ex, st, c), Vec(add(v.n, I(1)), e, v.et))
    return Ptr(oref(ex, st, c).sub('#e'), p)
# iterators
def iter_op(name):
    def h(ex, st, c):
        n = name
        if n == 'operator*':
            p = ex.val(st, c.obj)
            if isinstance(p, Opq) and p.tag == 'setit': return p.data[2](p.data[1]) if len(p.data) > 2 else set_deref(ex, st, p)
            ex.check_ptr(p, p.off, st, c.e or {})
            return p.base.sub(('ix', p.off))
        if n == 'operator->':
            return ex.val(st, c.obj)
        if n == 'operator++' or n == 'operator--':
            p = ex.val(st, c.obj)
            q = Ptr(p.base, add(p.off, I(1 if n == 'operator++' else -1)))
            ex.store(st, c.obj, q)
            return p if c.args else c.obj
        if n in ('operator+', 'operator-', 'operator+=', 'operator-='):
            p = ex.val(st, c.obj); k = V_(ex, st, c, 0)
            if isinstance(k, Ptr): return sub(p.off, k.off)
            q = Ptr(p.base, add(p.off, k) if '+' in n else sub(p.off, k))
            if n.endswith('='): ex.store(st, c.obj, q); return c.obj
            return q
        if n == 'operator[]':
            p = ex.val(st, c.obj); k = V_(ex, st, c, 0)
            return p.base.sub(('ix', add(p.off, k)))
        if n == 'base': return ex.val(st, c.obj)
    return h
for tn in ('__gnu_cxx::__normal_iterator',):
    LIBCLS[tn] = {m: iter_op(m) for m in ('operator*', 'operator->', 'operator++', 'operator--', 'operator+', 'operator-', 'operator+=', 'operator-=', 'operator[]', 'base')}
    LIBCLS[tn]['ctor'] = lambda ex, st, c: V_(ex, st, c, 0)
    LIBCLS[tn]['default'] = lambda ex, st, ty, prog: UNDEF
for op in ('==', '!=', '<', '<=', '>', '>='):
    def mk2(op):
        def h(ex, st, c):
            a = V_(ex, st, c, 0) if c.obj is None else ex.val(st, c.obj)
            b = V_(ex, st, c, 1) if c.obj is None else V_(ex, st, c, 0)
            if isinstance(a, Vec) and isinstance(b, Vec):
                if op in ('==', '!='):
                    w = fresh('w', 'I')
                    if a.e is None or b.e is None: r = eq(a.n, b.n)
                    else:
                        x, y = unlift(a.e, w), unlift(b.e, w)
                        if not isinstance(x, T): raise Unsupported('vector compare')
                        r = and_(eq(a.n, b.n), all_(w, I(0), a.n, eq(x, y)))
                    return r if op == '==' else not_(r)
                raise Unsupported('vector order')
            if any(isinstance(v, Rec) and v.t == 'std::basic_string' for v in (a, b)) and op in ('==', '!='):
                r = eq(string_of(ex, st, a).f['id'], string_of(ex, st, b).f['id'])
                return r if op == '==' else not_(r)
            if isinstance(a, Opq) or isinstance(b, Opq):
                if op in ('==', '!=') and not (isinstance(a, Opq) and a.tag == 'setit'):
                    r = app('opqeq', 'B', sym(repr(a), 'I'), sym(repr(b), 'I'))
                    return r if op == '==' else not_(r)
            return ex.cmp(op, a, b)
        return h
    LIB['__gnu_cxx::operator' + op] = mk2(op)
    LIB['std::operator' + op] = mk2(op)
    LIB['std::rel_ops::operator' + op] = mk2(op)
@lib('__gnu_cxx::operator-')
def _(ex, st, c): return sub(V_(ex, st, c, 0).off, V_(ex, st, c, 1).off)
@lib('__gnu_cxx::operator+')
def _(ex, st, c):
    a, b = V_(ex, st, c, 0), V_(ex, st, c, 1)
    return Ptr(b.base, add(b.off, a)) if isinstance(b, Ptr) else Ptr(a.base, add(a.off, b))
@lib('std::distance')
def _(ex, st, c): return sub(V_(ex, st, c, 1).off, V_(ex, st, c, 0).off)
@lib('std::next')
def _(ex, st, c):
    p = V_(ex, st, c, 0); k = V_(ex, st, c, 1) if len(c.args) > 1 else I(1)
    return Ptr(p.base, add(p.off, k))
@lib('std::advance')
def _(ex, st, c):
    p = V_(ex, st, c, 0); k = V_(ex, st, c, 1)
    ex.store(st, c.args[0], Ptr(p.base, add(p.off, k))); return UNDEF
@lib('std::begin', 'std::cbegin')
def _(ex, st, c):
    v = V_(ex, st, c, 0); return Ptr(c.args[0].sub('#e'), I(0))
@lib('std::end', 'std::cend')
def _(ex, st, c):
    v = V_(ex, st, c, 0); return Ptr(c.args[0].sub('#e'), v.n)
@lib('std::accumulate', 'std::reduce')
def _(ex, st, c):
    a, b, init = V_(ex, st, c, 0), V_(ex, st, c, 1), V_(ex, st, c, 2)
    arr = ex.load(st, a.base)
    if len(c.args) > 3:
        fv = V_(ex, st, c, 3); idx = ex.newroot(st, a.off, 'ri'); acc = ex.newroot(st, init, 'acc')
        def body(x):
            f = fv.prog.fns[fv.fid]; el = a.base.sub(('ix', ex.load(x, idx)))
            if fv.prog.types[f['ps'][1]['t']]['k'] != 'ref': el = ex.load(x, el)
            v = acc if fv.prog.types[f['ps'][0]['t']]['k'] == 'ref' else ex.load(x, acc)
            ex.store(x, acc, ex.val(x, ex.callval(fv, [v, el], x, c.fr)))
            return x
        end = ex.loop(st, c.fr, lambda x: lt(ex.load(x, idx), b.off), lambda x: ex.store(x, idx, add(ex.load(x, idx), I(1))), body, c.loc)
        st.become(end)
        return ex.load(st, acc)
    w = fresh('w', 'I')
    x = unlift(arr, w)
    if x.s != init.s: x = toreal(x) if init.s == 'R' else ex.trunc(x)
    return add(init, sum_(w, a.off, b.off, x))
@lib('std::fill')
def _(ex, st, c):
    a, b, v = V_(ex, st, c, 0), V_(ex, st, c, 1), V_(ex, st, c, 2)
    arr = ex.load(st, a.base); w = fresh('w', 'I')
    old = unlift(arr, w)
    if isinstance(old, T) and old.s == 'R' and v.s != 'R': v = toreal(v)
    ex.store(st, a.base, lift(vite(inrange(a.off, w, b.off), v, old), w)); return UNDEF
@lib('std::copy', 'std::memcpy')
def _(ex, st, c):
    a, b, d = V_(ex, st, c, 0), V_(ex, st, c, 1), V_(ex, st, c, 2)
    src = ex.load(st, a.base); dst = ex.load(st, d.base); w = fresh('w', 'I')
    n = sub(b.off, a.off)
    if ex.bounds:
        e = ex.extent_of(d.base, st)
        if e is not None: ex.oblige('bounds', st, le(add(d.off, n), e), c.loc, 'copy destination large enough')
    ex.store(st, d.base, lift(vite(and_(ge(w, d.off), lt(w, add(d.off, n))), unlift(src, add(sub(w, d.off), a.off)), unlift(dst, w)), w))
    return Ptr(d.base, add(d.off, n))
@lib('std::max_element', 'std::min_element')
def _(ex, st, c):
    a, b = V_(ex, st, c, 0), V_(ex, st, c, 1)
    arr = ex.load(st, a.base)
    m = fresh('argmax', 'I'); w = fresh('w', 'I')
    x = unlift(arr, w)
    if len(c.args) > 2: raise Unsupported('max_element cmp')
    rel = le if c.f['sq'].endswith('max_element') else ge
    strict = lt if rel is le else gt
    st.assume(or_(and_(le(b.off, a.off), eq(m, b.off)), and_(le(a.off, m), lt(m, b.off))))
    st.assume(all_(w, a.off, b.off, imp(lt(a.off, b.off), rel(x, lapp(arr, m)))))
    st.assume(all_(w, a.off, m, imp(lt(a.off, b.off), strict(x, lapp(arr, m)))))
    return Ptr(a.base, m)
@lib('std::find')
def _(ex, st, c):
    a, b, v = V_(ex, st, c, 0), V_(ex, st, c, 1), V_(ex, st, c, 2)
    arr = ex.load(st, a.base); w = fresh('w', 'I')
    return Ptr(a.base, first_(w, a.off, b.off, eq(unlift(arr, w), v)))
@lib('std::lower_bound')
def _(ex, st, c):
    a, b, v = V_(ex, st, c, 0), V_(ex, st, c, 1), V_(ex, st, c, 2)
    if len(c.args) > 3: raise Unsupported('lower_bound cmp')
    arr = ex.load(st, a.base); w = fresh('w', 'I')
    k = fresh('k', 'I')
    ex.oblige('precondition', st, all_(k, a.off, sub(b.off, I(1)), le(lapp(arr, k), lapp(arr, add(k, I(1))))), c.loc, 'lower_bound range is sorted')
    return Ptr(a.base, first_(w, a.off, b.off, ge(unlift(arr, w), v)))

# ------------------------------------------------------------------ smart pointers
for tn in ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::weak_ptr'):
    LIBCLS.setdefault(tn, {})
    LIBCLS[tn]['default'] = lambda ex, st, ty, prog: Null()
    def sp_ctor(ex, st, c):
        if not c.args: return Null()
        return V_(ex, st, c, 0)
    LIBCLS[tn]['ctor'] = sp_ctor
    LIBCLS[tn]['mksym'] = lambda ex, st, ty, name, idx, prog: ex.mkptr(st, ty, name, idx, prog) if hasattr(ex, 'mkptr') else Opq('ptr', name)
    def sp_deref(ex, st, c): return ex.deref_obj(ex.val(st, c.obj))
    LIBCLS[tn]['operator*'] = sp_deref
    LIBCLS[tn]['operator->'] = lambda ex, st, c: ex.val(st, c.obj)
    LIBCLS[tn]['get'] = lambda ex, st, c: ex.val(st, c.obj)
    LIBCLS[tn]['operator bool'] = lambda ex, st, c: ex.truth(ex.val(st, c.obj))
    LIBCLS[tn]['conv'] = lambda ex, st, c: ex.truth(ex.val(st, c.obj))
    def sp_reset(ex, st, c):
        ex.store(st, c.obj, V_(ex, st, c, 0) if c.args else Null()); return UNDEF
    LIBCLS[tn]['reset'] = sp_reset
    def sp_asg(ex, st, c):
        ex.store(st, c.obj, V_(ex, st, c, 0)); return c.obj
    LIBCLS[tn]['operator='] = sp_asg
@lib('std::make_shared', 'std::make_unique')
def _(ex, st, c):
    prog = c.fr.prog
    tid = c.f['ta'][0]['ty']
    ty = prog.types[tid]
    # the constructor that make_shared selects: match by argument count/types among repo constructors
    r = ex.recinfo(prog, ty)
    cands = [f for f in prog.fns.values() if f.get('ctor') and prog.types[f['cls']].get('s') == ty.get('s') and len(f['ps']) >= len(c.args)]
    exact = []
    for f in cands:
        if len(f['ps']) != len(c.args): continue
        ok = True
        for p, q in zip(f['ps'], c.f['ps']):
            a, b = prog.unref(p['t']), prog.unref(q['t'])
            if a.get('s') != b.get('s') or a['k'] != b['k']: ok = False
        if ok: exact.append(f)
    if not exact: exact = [f for f in cands if len(f['ps']) == len(c.args)]
    if len(exact) == 1:
        f = exact[0]
        if (f.get('copy') or f.get('move')) and 'body' not in f:
            return ObjPtr(ex.newroot(st, V_(ex, st, c, 0), 'sh'))
        this = ex.newroot(st, ex.default_value(st, tid, prog), 'sh')
        if 'body' in f: ex.invoke(f, this, [a if isinstance(a, Ref) else a for a in c.args], st, c.fr)
        return ObjPtr(this)
    raise Unsupported('make_shared<%s>' % ty.get('s'))

# ------------------------------------------------------------------ std::function
LIBCLS['std::function'] = dict(
    ctor=lambda ex, st, c: V_(ex, st, c, 0) if c.args else Null(),
    default=lambda ex, st, ty, prog: Null(),
    mksym=lambda ex, st, ty, name, idx, prog: Opq('function', name))
def fcall(ex, st, c):
    f = ex.val(st, c.obj)
    return ex.callval(f, c.args, st, c.fr, c.e)
LIBCLS['std::function']['operator()'] = fcall
def fasg(ex, st, c): ex.store(st, c.obj, V_(ex, st, c, 0)); return c.obj
LIBCLS['std::function']['operator='] = fasg

# ------------------------------------------------------------------ range-for
def stays_put(ex, ref, st, s):
    """a container being iterated keeps its size and so do the vectors it is stored in (its iterators stay valid)"""
    if not isinstance(ref, Ref): return lambda x, r: r
    chk = []
    for i in range(len(ref.steps) + 1):
        p = Ref(ref.root, ref.steps[:i])
        try: v = ex.load(st, p)
        except Unsupported: continue
        if isinstance(v, Vec): chk.append(p)
        elif isinstance(v, SetV) and i == len(ref.steps): chk.append(p)
    def size(x, p): return ex.load(x, p).n
    n0 = [size(st, p) for p in chk]
    def after(x, r):
        if not isinstance(r, State): return r
        for p, n in zip(chk, n0):
            try: m = size(r, p)
            except Unsupported: continue
            if m is not n: ex.oblige('precondition', r, eq(m, n), s.get('l', ''), 'the iterated container is not resized or moved during the loop')
        return r
    return after
def range_for(ex, s, st, fr):
    r = s['range']
    ref = ex.lv(r, st, fr) if ex.islv(r, fr) else ex.newroot(st, ex.ev(r, st, fr))
    v = ex.load(st, ref)
    stays = stays_put(ex, ref, st, s)
    if isinstance(v, Vec):
        n = v.n
        idx = ex.newroot(st, I(0), 'ri')
        byref = fr.prog.types[s['v']['t']]['k'] == 'ref'
        def cond(x): return lt(ex.load(x, idx), n)
        def inc(x): ex.store(x, idx, add(ex.load(x, idx), I(1)))
        def body(x):
            el = ref.sub(('ix', ex.load(x, idx)))
            if byref: fr.env[s['v']['id']] = el
            else:
                root = 'v%d.%d' % (s['v']['id'], fr.n)
                x.store[root] = ex.load(x, el); fr.env[s['v']['id']] = Ref(root)
            return stays(x, ex.exec(s['b'], x, fr))
        return ex.loop(st, fr, cond, inc, body, s.get('l', ''))
    if isinstance(v, SetV):
        return set_for(ex, s, st, fr, v, stays)
    raise Unsupported('range for over %r' % (v,))

# ------------------------------------------------------------------ std::set<int>/std::map (abstract)
def set_elem(m, k):
    """k-th smallest element of the set with membership predicate m"""
    return app('setnth', 'I', m, k)
def set_default(ex, st, ty, prog):
    w = fresh('w', 'I')
    return SetV(lam(w, FALSE), I(0))
def set_mksym(ex, st, ty, name, idx, prog):
    w = fresh('w', 'I')
    m = lam(w, app(name + '.mem', 'B', *(tuple(idx) + (w,))))
    n = ex.leafsym(name + '.card', 'I', idx)
    h = ge(n, I(0))
    for v in idx: h = forall(v, h)
    ex.hyps.append(h)
    return SetV(m, n)
LIBCLS['std::set'] = dict(default=set_default, mksym=set_mksym, ctor=lambda ex, st, c: V_(ex, st, c, 0) if c.args else set_default(ex, st, c.t, c.fr.prog))
@cls('std::set', 'insert', 'emplace')
def _(ex, st, c):
    v = ex.val(st, c.obj); x = V_(ex, st, c, 0)
    w = fresh('w', 'I')
    ex.store(st, c.obj, SetV(lam(w, or_(lapp(v.m, w, 'B'), eq(w, x))), add(v.n, ite(lapp(v.m, x, 'B'), I(0), I(1)))))
    return pair_rec(Opq('setit0'), not_(lapp(v.m, x, 'B')))
@cls('std::set', 'erase')
def _(ex, st, c):
    v = ex.val(st, c.obj); x = V_(ex, st, c, 0)
    w = fresh('w', 'I')
    ex.store(st, c.obj, SetV(lam(w, and_(lapp(v.m, w, 'B'), ne(w, x))), sub(v.n, ite(lapp(v.m, x, 'B'), I(1), I(0)))))
    return UNDEF
@cls('std::set', 'count')
def _(ex, st, c):
    v = ex.val(st, c.obj); return ite(lapp(v.m, V_(ex, st, c, 0), 'B'), I(1), I(0))
@cls('std::set', 'size')
def _(ex, st, c): return ex.val(st, c.obj).n
@cls('std::set', 'empty')
def _(ex, st, c): return eq(ex.val(st, c.obj).n, I(0))
@cls('std::set', 'clear')
def _(ex, st, c): ex.store(st, c.obj, set_default(ex, st, None, None)); return UNDEF

def closed(prefix, t):
    """name and arguments of a function that stands for the term t (a lambda): equal descriptions get equal names"""
    its = sorted((x for x in loops.subterms(t) if x.op == 'app' and isinstance(x.a[0], str) and x.a[0].startswith('U#')), key=lambda x: (-len(canon(x)), canon(x)))
    ground = [x for x in its if not smt.hasbv(x)]; args = []
    for x in ground:                                  # values of loop iterates are arguments
        if x in loops.subterms(t): t = loops.replace_terms(t, {x: sym('$u%d' % len(args), x.s)}); args.append(x)
    vs = occurrence_order(t, [v for v in freevars(t) if v.op == 'sym' and not v.a[0].startswith('$u')])
    key = canon(subst(t, {v: sym('$%d' % n, v.s) for n, v in enumerate(vs)}))
    dep = []                                          # so that iterates of containers read inside are seen to occur
    for x in its:
        if smt.hasbv(x): dep.append(subst(x, {v: num(0, v.s) for v in freevars(x) if v.op == 'bv'}))
    return '%s{%d}' % (prefix, _closed.setdefault(key, len(_closed))), args + vs + list(dict.fromkeys(dep))
def occurrence_order(t, vs):
    """variables by first occurrence, independently of their names"""
    m = {v: sym('$v', v.s) for v in vs}; shape = lambda x: canon(subst(x, m)); out = []
    def go(x):
        if not any(v in freevars(x) for v in vs if v not in out): return
        if x in vs: out.append(x); return
        if x.op == 'poly':
            for mo, c in sorted(x.a, key=lambda q: (sorted((shape(y), e) for y, e in q[0]), q[1])):
                for y, e in sorted(mo, key=lambda q: (shape(q[0]), q[1])): go(y)
        else:
            ks = [y for y in x.a if isinstance(y, T)]
            for y in sorted(ks, key=shape) if x.op in ('and', 'or', 'eq') else ks: go(y)
    go(t)
    return out
_closed = {}; _canon = {}
def canon(x):
    """structure of a term, the order of commutative operands left out"""
    r = _canon.get(x)
    if r is None:
        if x.op == 'poly': r = '(' + '+'.join(sorted('*'.join(sorted('%s^%s' % (canon(y), e) for y, e in m)) + '*%s' % c for m, c in x.a)) + ')'
        elif x.op in ('and', 'or', 'eq'): r = x.op + '(' + ','.join(sorted(canon(y) for y in x.a)) + ')'
        else: r = x.op + ':' + x.s + '(' + ','.join(canon(y) if isinstance(y, T) else str(y) for y in x.a) + ')'
        _canon[x] = r
    return r
def set_for(ex, s, st, fr, v, stays=lambda x, r: r):
    """iterate a set in unspecified (ghost) order: element k is nth(k); facts: injective, ranges over exactly the members"""
    # the enumeration is a function of the set: its name is the set's description, its first arguments the values it depends on
    N = v.n; nm, dep = closed('enum', lam(fresh('w', 'I'), v.m)); ex.nfacts += 1
    def el(k): return app(nm, 'I', *dep, N, k)
    k, x = fresh('k', 'I'), fresh('x', 'I')
    pos = lambda y: app(nm + '.pos', 'I', *dep, N, y)
    ex.enums.append((el, pos, N))
    st.assume(ge(N, I(0)))
    st.assume(all_(k, I(0), N, lapp(v.m, el(k), 'B')))
    st.assume(forall(x, imp(lapp(v.m, x, 'B'), and_(ge(pos(x), I(0)), lt(pos(x), N), eq(el(pos(x)), x)))))
    st.assume(all_(k, I(0), N, eq(pos(el(k)), k)))
    idx = ex.newroot(st, I(0), 'ri')
    def cond(x_): return lt(ex.load(x_, idx), N)
    def inc(x_): ex.store(x_, idx, add(ex.load(x_, idx), I(1)))
    def body(x_):
        root = 'v%d.%d' % (s['v']['id'], fr.n)
        x_.store[root] = el(ex.load(x_, idx)); fr.env[s['v']['id']] = Ref(root)
        return stays(x_, ex.exec(s['b'], x_, fr))
    return ex.loop(st, fr, cond, inc, body, s.get('l', ''))

# ------------------------------------------------------------------ Kokkos views
def view_info(ty, prog):
    """(rank, element sort) of a View type"""
    d = prog.types[ty['ta'][0]['ty']]
    r = 0
    while d['k'] in ('ptr', 'arr'):
        r += 1
        d = prog.types[d['to']]
    return r, d
def elem_sort(ex, d):
    s = ex.sort_of(d)
    return s
def view_default(ex, st, ty, prog):
    r, d = view_info(ty, prog)
    root = ex.newroot(st, mk_array(ex, d, r, None), 'vw'); ex.allocd[root.root] = False
    st.ghost[('ext', root.root)] = I(0)
    return View(root, [('a', I(0))] * r, [I(0)] * r)
def mk_array(ex, d, r, name, zero=False, idx=()):
    s = ex.sort_of(d)
    if s is None:
        raise Unsupported('view of %s' % d.get('s', d['k']))
    if zero:
        t = FALSE if s == 'B' else num(0, s)
        for _ in range(r): t = lam(fresh('w', 'I'), t)
        return t
    name = name or 'undef#%d' % fresh('u', 'I').id
    vs = [fresh('w', 'I') for _ in range(r)]
    t = app(name, s, *(tuple(idx) + tuple(vs)))
    for v in reversed(vs): t = lam(v, t)
    return t
def view_mksym(ex, st, ty, name, idx, prog):
    r, d = view_info(ty, prog)
    if idx: 
        # a View stored per element of a container: buffer indexed by the container index
        root = 'vb:' + name
        ss = [v.s for v in idx]
        vs = [fresh('w', s) for s in ss] + [fresh('w', 'I') for _ in range(r)]
        t = app(name, ex.sort_of(d), *vs)
        for v in reversed(vs): t = lam(v, t)
        st.store[root] = t
        ext = [app(name + '.ext%d' % i, 'I', *idx) for i in range(r)]
        for e in ext:
            h = ge(e, I(0))
            for v in idx: h = forall(v, h)
            ex.hyps.append(h)
        return View(Ref(root, [('ix', v) for v in idx]), [('a', I(0))] * r, ext)
    root = ex.newroot(st, mk_array(ex, d, r, name), 'vw'); ex.lay[root.root] = layout_of(ty, prog)
    ext = [sym(name + '.ext%d' % i, 'I') for i in range(r)]
    for e in ext: ex.hyps.append(ge(e, I(0)))
    ty_ = ex.int_range(I(0), d)
    if d['k'] in ('int', 'enum') and not d.get('sg', False):
        vs = [fresh('w', 'I') for _ in range(r)]
        h = ge(app(name, 'I', *vs), I(0))
        for v in vs: h = forall(v, h)
        ex.hyps.append(h)
        ex.nneg.add(name)
    if r == 1: st.ghost[('ext', root.root)] = ext[0]
    return View(root, [('a', I(0))] * r, ext)
SENT = (1 << 64) - 1
def view_ctor(ex, st, c):
    prog = c.fr.prog
    ty = c.t if c.t is not None and c.t['k'] == 'rec' else prog.types[c.f['cls']]
    r, d = view_info(ty, prog)
    a = [ex.val(st, x) for x in c.args]
    if not a: return view_default(ex, st, ty, prog)
    if isinstance(a[0], View):
        layout_check(ex, st, c, ty, a[0])
        return a[0]
    if isinstance(a[0], Opq) and a[0].tag == 'merged': raise NeedSplit(a[0].data[0])
    ext = [x for x in a[1:] if isinstance(x, T) and x.s == 'I' and not (isnum(x) and val(x) == SENT)][:r]
    if len(ext) < r and not (isinstance(a[0], Opq) and False): 
        raise Unsupported('view ctor extents')
    if isinstance(a[0], Ptr):
        # unmanaged view over existing storage
        if r == 1:
            p = a[0]
            e = ex.extent_of(p.base, st)
            if e is not None and ex.bounds:
                ex.oblige('bounds', st, le(add(p.off, ext[0]), e), c.loc, 'unmanaged view lies inside the wrapped storage')
            if p.base.steps == (): ex.lay.setdefault(p.base.root, 'R')            # raw memory is contiguous
            return View(p.base, [('a', p.off)], ext)
        lay = layout_of(ty, prog)
        return flat_view(ex, st, a[0], ext, lay, c)
    if isinstance(a[0], Null):
        root = ex.newroot(st, mk_array(ex, d, r, None), 'vw')
        return View(root, [('a', I(0))] * r, ext)
    zero = not (isinstance(a[0], Opq) and a[0].tag in ('scratch', 'noinit'))
    root = ex.newroot(st, mk_array(ex, d, r, None, zero=zero), 'vw'); ex.allocd[root.root] = True; ex.bufext[root.root] = tuple(ext); ex.lay[root.root] = layout_of(ty, prog)
    if r == 1: st.ghost[('ext', root.root)] = ext[0]
    return View(root, [('a', I(0))] * r, ext)
def layout_of(ty, prog):
    for a in ty['ta'][1:]:
        for x in (a['pack'] if 'pack' in a else [a]):
            if 'ty' in x:
                s = prog.types[x['ty']].get('s', '')
                if 'LayoutLeft' in s: return 'L'
                if 'LayoutRight' in s: return 'R'
                if 'LayoutStride' in s: return 'S'
    return 'R'
def flat_view(ex, st, p, ext, lay, c):
    raise Unsupported('unmanaged multi-dimensional view')
LIBCLS['Kokkos::View'] = dict(ctor=view_ctor, default=view_default, mksym=view_mksym)
def vw(ex, st, c):
    v = ex.val(st, c.obj)
    if isinstance(v, View): return v
    if isinstance(v, Opq) and v.tag == 'merged': raise NeedSplit(v.data[0])
    raise Unsupported('view value %r' % (v,))
@cls('Kokkos::View', 'operator()', 'access', 'operator[]')
def _(ex, st, c):
    v = vw(ex, st, c)
    idx = [ex.val(st, a) for a in c.args]
    if len(idx) != len(v.ext): raise Unsupported('view rank mismatch')
    if ex.bounds:
        ex.oblige('bounds', st, and_(*[and_(ge(i, I(0)), lt(i, e)) for i, e in zip(idx, v.ext)]), c.loc, 'view index within extents')
    return v.at(idx)
@cls('Kokkos::View', 'extent', 'extent_int')
def _(ex, st, c):
    v = vw(ex, st, c); i = V_(ex, st, c, 0)
    if not isnum(i): raise Unsupported('symbolic extent index')
    k = int(val(i))
    return v.ext[k] if k < len(v.ext) else I(1)
@cls('Kokkos::View', 'size', 'span')
def _(ex, st, c):
    v = vw(ex, st, c); t = I(1)
    for e in v.ext: t = mul(t, e)
    return t
def stride(ex, v, q):
    """stride of the q-th axis of a view: exact for storage allocated here, an unknown positive constant per axis otherwise"""
    ax = [i for i, d in enumerate(v.dims) if d[0] == 'a'][q]
    root = v.buf.root; lay = ex.lay.get(root); be = ex.bufext.get(root)
    if be is not None and lay in ('L', 'R') and not v.buf.steps:
        t = I(1)
        for e in (be[:ax] if lay == 'L' else be[ax + 1:]): t = mul(t, e)
        return t
    if lay == 'L' and ax == 0 or lay == 'R' and ax == len(v.dims) - 1: return I(1)
    t = app('stride%d.%s' % (ax, root), 'I')
    ex.hyps.append(ge(t, I(1)))
    return t
def layout_check(ex, st, c, ty, v):
    """run-time check Kokkos performs when a strided view is converted to a contiguous one"""
    prog = c.fr.prog
    if not (c.e and c.e.get('a') and c.e['a'][0] and 't' in c.e['a'][0]): return
    sty = prog.unref(c.e['a'][0]['t'])
    if sty.get('tn') != 'Kokkos::View': return
    src, dst = layout_of(sty, prog), layout_of(ty, prog); r = len(v.ext)
    if dst not in ('L', 'R') or src == dst or r == 0 or (r == 1 and src != 'S'): return
    t = I(1); g = []
    for q in (range(r) if dst == 'L' else reversed(range(r))):
        g.append(eq(stride(ex, v, q), t)); t = mul(t, v.ext[q])
    ex.oblige('layout', st, and_(*g), c.loc, 'the converted view is contiguous (%s-major)' % ('column' if dst == 'L' else 'row'))
def address_check(ex, st, x, fr):
    """&v(i): the pointer walks the memory of the view, so a strided view must be contiguous along its last axis"""
    if x.get('k') != 'opcall' or x.get('op') != '()': return
    o = x['a'][0]
    if 't' not in o or not ex.islv(o, fr): return
    ty = fr.prog.unref(o['t'])
    if ty.get('tn') != 'Kokkos::View' or layout_of(ty, fr.prog) == 'R': return
    v = ex.val(st, ex.lv(o, st, fr))
    if not isinstance(v, View) or not v.ext: return
    r = len(v.ext)
    if layout_of(ty, fr.prog) == 'L' and r == 1: return
    ex.oblige('layout', st, eq(stride(ex, v, r - 1), I(1)), x.get('l', ''), 'a pointer into the view is followed along contiguous memory')
LIB['#address'] = address_check
def _stride(q):
    def h(ex, st, c):
        return stride(ex, vw(ex, st, c), q)
    return h
LIBCLS['Kokkos::View']['stride_0'] = _stride(0)
LIBCLS['Kokkos::View']['stride_1'] = _stride(1)
LIBCLS['Kokkos::View']['span_is_contiguous'] = lambda ex, st, c: app('contig.%s' % vw(ex, st, c).buf.root, 'B')
@cls('Kokkos::View', 'data')
def _(ex, st, c):
    v = vw(ex, st, c)
    ax = [i for i, d in enumerate(v.dims) if d[0] == 'a']
    o = c.e.get('o') if c.e else None
    if o is not None and 't' in o and len(v.ext) == 1:
        ty = c.fr.prog.unref(o['t'])
        if ty.get('tn') == 'Kokkos::View' and layout_of(ty, c.fr.prog) == 'S':
            ex.oblige('layout', st, eq(stride(ex, v, 0), I(1)), c.loc, 'a pointer into the view is followed along contiguous memory')
    if len(v.dims) == 1 and len(ax) == 1: return Ptr(v.buf, v.dims[0][1])
    raise Unsupported('data() of a multi-dimensional view')
@cls('Kokkos::View', 'is_allocated')
def _(ex, st, c):
    v = vw(ex, st, c)
    if len(v.ext) == 0: return TRUE
    r = v.buf.root
    if r in ex.allocd: return B(ex.allocd[r])
    b = app('alloc.%s' % r, 'B')                 # storage of unknown origin: only an empty view may be unallocated
    st.assume(or_(b, eq(v.ext[0], I(0))))
    return b
@cls('Kokkos::View', 'operator=')
def _(ex, st, c):
    ex.store(st, c.obj, V_(ex, st, c, 0)); return c.obj
@cls('Kokkos::View', 'label')
def _(ex, st, c): return Opq('str')
@cls('Kokkos::View', 'shmem_size')
def _(ex, st, c):
    t = R(1)
    return mul(I(8), V_(ex, st, c, 0))
@lib('Kokkos::subview')
def _(ex, st, c):
    v = V_(ex, st, c, 0)
    if not isinstance(v, View): raise Unsupported('subview of %r' % (v,))
    sel = [ex.val(st, a) for a in c.args[1:]]
    dims = []; ext = []
    it = 0
    for kind, off in v.dims:
        if kind == 'f': dims.append((kind, off)); continue
        s = sel[it]; e = v.ext[it]; it += 1
        if isinstance(s, Rec):
            lo, hi = s.f['first'], s.f['second']
            if ex.bounds: ex.oblige('bounds', st, and_(ge(lo, I(0)), le(lo, hi), le(hi, e)), c.loc, 'subview range within extents')
            dims.append(('a', add(off, lo))); ext.append(sub(hi, lo))
        elif isinstance(s, T):
            if ex.bounds: ex.oblige('bounds', st, and_(ge(s, I(0)), lt(s, e)), c.loc, 'subview index within extents')
            dims.append(('f', add(off, s)))
        else: dims.append(('a', off)); ext.append(e)
    return View(v.buf, dims, ext)
LIBCLS['Kokkos::Impl::ALL_t'] = dict(ctor=lambda ex, st, c: Opq('ALL'), default=lambda ex, st, ty, prog: Opq('ALL'))
LIBCLS['Kokkos::Impl::ALL_t']['operator()'] = lambda ex, st, c: Opq('ALL')
LIBCLS['Kokkos::ALL_t'] = LIBCLS['Kokkos::Impl::ALL_t']
LIBCLS['Kokkos::ViewAllocateWithoutInitializing'] = dict(ctor=lambda ex, st, c: Opq('noinit'))
@lib('Kokkos::create_mirror_view', 'Kokkos::create_mirror_view_and_copy')
def _(ex, st, c):
    for a in c.args:
        v = ex.val(st, a)
        if isinstance(v, View): return v   # host memory: the mirror is the view itself
    raise Unsupported('mirror')
@lib('Kokkos::deep_copy')
def _(ex, st, c):
    a = [ex.val(st, x) for x in c.args]
    for x in a:
        if isinstance(x, Opq) and x.tag == 'merged': raise NeedSplit(x.data[0])
    if not isinstance(a[0], View): a = a[1:]
    d, s = a[0], a[1]
    r = len(d.ext)
    if isinstance(s, View):
        if s == d: return UNDEF
        ex.oblige('precondition', st, and_(*[eq(x, y) for x, y in zip(d.ext, s.ext)]), c.loc, 'deep_copy extents agree')
        srcv = ex.load(st, s.buf)
    vs = [fresh('w', 'I') for _ in d.dims]
    old = ex.load(st, d.buf)
    cur = old
    for v in vs: cur = lapp(cur, v)
    g = TRUE; idx = []
    it = 0
    for v, (k, off) in zip(vs, d.dims):
        if k == 'f': g = and_(g, eq(v, off))
        else:
            g = and_(g, ge(v, off), lt(v, add(off, d.ext[it]))); idx.append(sub(v, off)); it += 1
    if isinstance(s, View):
        ref = s.at(idx)
        new = rd(srcv, ref.steps[len(s.buf.steps):])
    else:
        new = s
        if isinstance(new, T) and cur.s == 'R' and new.s != 'R': new = toreal(new)
    body = ite(g, new, cur)
    for v in reversed(vs): body = lam(v, body)
    ex.store(st, d.buf, body)
    return UNDEF
@lib('Kokkos::resize', 'Kokkos::realloc')
def _(ex, st, c):
    v = V_(ex, st, c, 0)
    ext = [x for x in (ex.val(st, a) for a in c.args[1:]) if isinstance(x, T) and not (isnum(x) and val(x) == SENT)][:len(v.ext)]
    vs = [fresh('w', 'I') for _ in ext]
    ref = v.at(vs)
    cur = ex.load(st, ref)
    g = and_(*[lt(w, e) for w, e in zip(vs, v.ext)])
    if c.f['sq'].endswith('realloc'): g = FALSE
    body = ite(g, cur, num(0, cur.s))
    for w in reversed(vs): body = lam(w, body)
    root = ex.newroot(st, body, 'vw')
    if len(ext) == 1: st.ghost[('ext', root.root)] = ext[0]
    ex.store(st, c.args[0], View(root, [('a', I(0))] * len(ext), ext))
    return UNDEF
# -- policies and dispatch
LIBCLS['Kokkos::RangePolicy'] = dict(ctor=lambda ex, st, c: Opq('range', tuple(ex.val(st, a) for a in c.args[:2])), default=lambda ex, st, ty, prog: Opq('range0'))
def mdr(ex, st, c):
    a = [ex.val(st, x) for x in c.args]
    lo, hi = a[0], a[1]
    if not (isinstance(lo, Vec) and isinstance(hi, Vec)): raise Unsupported('MDRangePolicy')
    n = int(val(lo.n))
    return Opq('mdrange', ([unlift(lo.e, I(i)) for i in range(n)], [unlift(hi.e, I(i)) for i in range(n)]))
LIBCLS['Kokkos::MDRangePolicy'] = dict(ctor=mdr)
LIBCLS['Kokkos::Array'] = dict(ctor=vec_ctor, default=arr_default)
def team_ctor(ex, st, c):
    a = [ex.val(st, x) for x in c.args]
    if not a: return Opq('team0')
    if isinstance(a[0], Opq): return a[0]
    return Opq('team', (a[0], a[1]))
LIBCLS['Kokkos::TeamPolicy'] = dict(ctor=team_ctor, default=lambda ex, st, ty, prog: Opq('team0'))
def same_obj(ex, st, c): return ex.val(st, c.obj)
for n in ('set_scratch_size', 'set_chunk_size'):
    LIBCLS['Kokkos::TeamPolicy'][n] = same_obj
    LIBCLS['Kokkos::RangePolicy'][n] = same_obj
@cls('Kokkos::TeamPolicy', 'team_size_recommended', 'team_size_max')
def _(ex, st, c): return teamsz(ex, st)
def teamsz(ex, st):
    t = fresh('teamsize', 'I'); st.assume(ge(t, I(1))); return t
LIBCLS['Kokkos::Impl::TeamPolicyInternal'] = dict(LIBCLS['Kokkos::TeamPolicy'])
@cls('Kokkos::TeamPolicy', 'operator=')
def _(ex, st, c): ex.store(st, c.obj, V_(ex, st, c, 0)); return c.obj
LIB['Kokkos::PerTeam'] = lambda ex, st, c: Opq('scratchsz', c.args[0])
LIB['Kokkos::PerThread'] = lambda ex, st, c: Opq('scratchsz', c.args[0])
LIBCLS['Kokkos::ParallelForTag'] = dict(ctor=lambda ex, st, c: Opq('tag'), default=lambda ex, st, ty, prog: Opq('tag'))
TMEM = LIBCLS.setdefault('Kokkos::Impl::HostThreadTeamMember', {})
def member(ex, st, c):
    m = ex.val(st, c.obj)
    return m.data
TMEM['league_rank'] = lambda ex, st, c: app('leaguerank', 'I', member(ex, st, c)[0])
TMEM['team_size'] = lambda ex, st, c: member(ex, st, c)[2]
TMEM['league_size'] = lambda ex, st, c: member(ex, st, c)[1]
def _trank(ex, st, c):
    q, L, Tz = member(ex, st, c)
    return sub(q, mul(app('leaguerank', 'I', q), Tz))
TMEM['team_rank'] = _trank
for n in ('thread_scratch', 'team_scratch', 'team_shmem'): TMEM[n] = lambda ex, st, c: Opq('scratch')
TMEM['team_barrier'] = lambda ex, st, c: UNDEF

@lib('Kokkos::parallel_for')
def _(ex, st, c):
    a = [ex.val(st, x) for x in c.args]
    fnv = None; pol = None
    for x in a:
        if isinstance(x, Opq) and x.tag in ('range', 'team', 'mdrange'): pol = x
        elif isinstance(x, (Clo, Rec)): fnv = x
        elif isinstance(x, T) and x.s == 'I' and pol is None: pol = Opq('range', (I(0), x))
    if pol is None or fnv is None: raise Unsupported('parallel_for arguments %r' % (a,))
    par_loop(ex, st, c, pol, fnv)
    return UNDEF
def par_loop(ex, st, c, pol, fnv, extra=None):
    fr = c.fr
    if pol.tag == 'range':
        lo, hi = pol.data
        if isnum(lo) and val(lo) == 0: n = hi
        else: n = sub(hi, lo)
        n0 = n if ex.quick(st, ge(n, I(0))) else max_(n, I(0))
        idx = ex.newroot(st, I(0), 'pi')
        mk_arg = lambda k: add(lo, k)
    elif pol.tag == 'team':
        L, Tz = pol.data
        n0 = mul(L, Tz)
        idx = ex.newroot(st, I(0), 'pi')
        mk_arg = lambda k: Opq('member', (k, L, Tz))
    else:
        los, his = pol.data
        return md_loop(ex, st, c, los, his, fnv)
    if isnum(n0) and val(n0) == 1 and pol.tag == 'range':
        ex.callval(fnv, [mk_arg(I(0))], st, fr); return
    def cond(x): return lt(ex.load(x, idx), n0)
    def inc(x): ex.store(x, idx, add(ex.load(x, idx), I(1)))
    def body(x):
        k = ex.load(x, idx)
        ex.callval(fnv, [mk_arg(k)], x, fr)
        return None if x.dead() else x
    import loops
    r = loops.run_loop(ex, st, fr, cond, inc, body, c.loc, par=n0)
    if r is not None and r is not st: st.become(r)
def md_loop(ex, st, c, los, his, fnv):
    fr = c.fr
    def level(d, args):
        def go(x):
            if d == len(los):
                ex.callval(fnv, list(args), x, fr)
                return None if x.dead() else x
            n = sub(his[d], los[d])
            n0 = n if ex.quick(x, ge(n, I(0))) else max_(n, I(0))
            idx = ex.newroot(x, I(0), 'pi')
            def cond(y): return lt(ex.load(y, idx), n0)
            def inc(y): ex.store(y, idx, add(ex.load(y, idx), I(1)))
            def body(y):
                k = ex.load(y, idx)
                return level(d + 1, args + [add(los[d], k)])(y)
            import loops
            return loops.run_loop(ex, x, fr, cond, inc, body, c.loc, par=n0)
        return go
    r = level(0, [])(st)
    if r is not None and r is not st: st.become(r)
    elif r is None: st.assume(FALSE)
@lib('Kokkos::parallel_scan')
def _(ex, st, c):
    """exclusive scan: the final pass calls f(i, update, true) with update = combined contributions of earlier indices"""
    a = [ex.val(st, x) for x in c.args]
    pol = [x for x in a if isinstance(x, Opq) and x.tag == 'range'] or [Opq('range', (I(0), x)) for x in a if isinstance(x, T)]
    fnv = [x for x in a if isinstance(x, (Clo, Rec))][0]
    lo, hi = pol[0].data
    upd = ex.newroot(st, I(0), 'upd')
    idx = ex.newroot(st, lo, 'pi')
    def cond(x): return lt(ex.load(x, idx), hi)
    def inc(x): ex.store(x, idx, add(ex.load(x, idx), I(1)))
    def body(x):
        ex.callval(fnv, [ex.load(x, idx), upd, TRUE], x, c.fr)
        return None if x.dead() else x
    import loops
    r = loops.run_loop(ex, st, c.fr, cond, inc, body, c.loc)
    if r is not None and r is not st: st.become(r)
    return UNDEF
@lib('Kokkos::parallel_reduce')
def _(ex, st, c):
    """sum (or product / maximum for the named reducers) of the per-iteration contributions"""
    a = [ex.val(st, x) for x in c.args]
    pol = None; fnv = None; out = None
    if isinstance(a[-1], Ptr) and len(a) >= 2 and isinstance(a[-2], Rec) and a[-2].t != 'std::basic_string': return reduce_array(ex, st, c, a)
    for x, raw in zip(a, c.args):
        if isinstance(x, Opq) and x.tag == 'range': pol = x
        elif isinstance(x, Rec) and x.t == 'std::basic_string': pass
        elif isinstance(x, (Clo, Rec)) and fnv is None: fnv = x
        elif isinstance(x, Opq) and x.tag == 'reducer': out = x
        elif isinstance(x, T) and isinstance(raw, Ref) and fnv is not None: out = raw
        elif isinstance(x, T) and x.s == 'I' and pol is None: pol = Opq('range', (I(0), x))
    if out is None or pol is None or fnv is None: raise Unsupported('parallel_reduce')
    lo, hi = pol.data
    red = 'sum'; ref = out
    if isinstance(out, Opq): red, ref = out.data
    s = ex.load(st, ref).s
    init = num(0 if red == 'sum' else 1, s)
    acc = ex.newroot(st, init, 'acc')
    idx = ex.newroot(st, lo, 'pi')
    def cond(x): return lt(ex.load(x, idx), hi)
    def inc(x): ex.store(x, idx, add(ex.load(x, idx), I(1)))
    def body(x):
        ex.callval(fnv, [ex.load(x, idx), acc], x, c.fr)
        return None if x.dead() else x
    import loops
    r = loops.run_loop(ex, st, c.fr, cond, inc, body, c.loc)
    if r is not None and r is not st: st.become(r)
    ex.store(st, ref, ex.load(st, acc))
    return UNDEF
def method(prog, t, name):
    r = [f for f in prog.fns.values() if 'cls' in f and prog.types[f['cls']].get('s') == t and f.get('n') == name and 'body' in f]
    if len(r) != 1: raise Unsupported('%s::%s' % (t, name))
    return r[0]
def reduce_array(ex, st, c, a):
    """functor with an array result: init, one call per index, combined by join.  That init/join make the combination independent of the
    partition is the contract of the functor (units ReduceDim init/join/operator())."""
    n, rr, out = a[-3], a[-2], a[-1]
    lo, hi = n.data if isinstance(n, Opq) and n.tag == 'range' else (I(0), n)
    prog = c.fr.prog
    this = ex.newroot(st, rr, 'functor')
    ini, op = method(prog, rr.t, 'init'), method(prog, rr.t, 'operator()')
    ex.invoke(ini, this, [out], st, c.fr)
    idx = ex.newroot(st, lo, 'pi')
    def cond(x): return lt(ex.load(x, idx), hi)
    def inc(x): ex.store(x, idx, add(ex.load(x, idx), I(1)))
    def body(x):
        ex.invoke(op, this, [ex.load(x, idx), out], x, c.fr)
        return None if x.dead() else x
    import loops
    r = loops.run_loop(ex, st, c.fr, cond, inc, body, c.loc)
    if r is not None and r is not st: st.become(r)
    return UNDEF
def reducer(kind):
    return dict(ctor=lambda ex, st, c: Opq('reducer', (kind, c.args[0])))
LIBCLS['Kokkos::Prod'] = reducer('prod')
LIBCLS['Kokkos::Sum'] = reducer('sum')
# lemma for the league decomposition: leaguerank(q)*T <= q  is never needed because team_rank is defined as the remainder
@lib('time', 'std::time')
def _(ex, st, c): return fresh('now', 'I')
LIBCLS['Kokkos::Random_XorShift64_Pool'] = dict(ctor=lambda ex, st, c: Opq('pool', tuple(c.args)))
def _atomic(nm, f):
    @lib('Kokkos::atomic_' + nm)
    def _(ex, st, c):
        """one indivisible update (sequential here: parallel regions treat it as an ordinary access, which the race obligation would reject)"""
        p = V_(ex, st, c, 0); v = V_(ex, st, c, 1)
        r = p.base.sub(('ix', p.off)) if isinstance(p, Ptr) else p.ref if isinstance(p, ObjPtr) else p
        a = ex.load(st, r); ex.store(st, r, f(a, v if a.s == v.s else toreal(v))); return None
_atomic('max', lambda a, b: ite(lt(a, b), b, a)); _atomic('min', lambda a, b: ite(lt(b, a), b, a)); _atomic('add', lambda a, b: add(a, b))
@lib('std::tie')
def _(ex, st, c): return Opq('tie', tuple(c.args))
@lib('std::tuple::operator=')
def _(ex, st, c):
    t = ex.load(st, c.obj) if isinstance(c.obj, Ref) else c.obj; v = c.args[0]
    if isinstance(v, Ref): v = ex.load(st, v)
    if not (isinstance(t, Opq) and t.tag == 'tie' and isinstance(v, Rec)): raise Unsupported('tuple assignment')
    for r, k in zip(t.data, ('first', 'second')): ex.store(st, r, v.f[k])
    return None

# ------------------------------------------------------------------ std::map with keys that are integers or opaque identities
def mkey(ex, st, a):
    v = ex.val(st, a)
    if isinstance(v, Rec) and '$id' in v.f: return v.f['$id']
    if isinstance(v, T) and v.s == 'I': return v
    raise Unsupported('map key %r' % (v,))
def map_it(ref, key, found): return Rec('mapit', {'map': ref, 'key': key, 'found': found})
def mapv(m):
    def d(g):
        old = LIBCLS['std::map'].get(m)
        def h(ex, st, c):
            v = ex.val(st, c.obj)
            if isinstance(v, MapV): return g(ex, st, c, v)
            if old is None: raise Unsupported('map operation %s' % m)
            return old(ex, st, c)
        LIBCLS['std::map'][m] = h
        return g
    return d
mref = lambda ex, st, c: c.obj.ref if isinstance(c.obj, ObjPtr) else c.obj
@mapv('find')
def _(ex, st, c, v): k = mkey(ex, st, c.args[0]); return map_it(mref(ex, st, c), k, lapp(v.d, k, 'B'))
for m in ('end', 'cend'):
    @mapv(m)
    def _(ex, st, c, v): return map_it(mref(ex, st, c), I(0), FALSE)
@mapv('count')
def _(ex, st, c, v): return ite(lapp(v.d, mkey(ex, st, c.args[0]), 'B'), I(1), I(0))
@mapv('size')
def _(ex, st, c, v): return v.n
@mapv('at')
def _(ex, st, c, v):
    k = mkey(ex, st, c.args[0]); ex.oblige('precondition', st, lapp(v.d, k, 'B'), c.loc, 'the key is present'); return mref(ex, st, c).sub(('ix', k))
@mapv('operator[]')
def _(ex, st, c, v):
    k = mkey(ex, st, c.args[0]); r = mref(ex, st, c); w = fresh('w', 'I'); has = lapp(v.d, k, 'B')
    z = lambda t: I(0) if t.s == 'I' else R(0)
    ex.store(st, r, MapV(lam(w, or_(lapp(v.d, w, 'B'), eq(w, k))), lift(vite(and_(eq(w, k), not_(has)), vmap(z, unlift(v.v, w)), unlift(v.v, w)), w), add(v.n, ite(has, I(0), I(1)))))
    return r.sub(('ix', k))
for tn in ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator'):
    def deref(ex, st, c):
        it = ex.val(st, c.obj)
        if not (isinstance(it, Rec) and it.t == 'mapit'): raise Unsupported('iterator %r' % (it,))
        ex.oblige('bounds', st, it.f['found'], c.loc, 'the iterator is not past the end')
        ref = it.f['map'].sub(('ix', it.f['key'])); v = ex.load(st, ref)
        return ex.newroot(st, pair_rec(it.f['key'], v), 'mapel')
    LIBCLS[tn] = {'operator*': deref, 'operator->': lambda ex, st, c, d=deref: ObjPtr(d(ex, st, c)), 'ctor': lambda ex, st, c: V_(ex, st, c, 0), 'default': lambda ex, st, ty, prog: UNDEF}
for op in ('==', '!='):
    def mk3(op, old):
        def h(ex, st, c):
            a = V_(ex, st, c, 0) if c.obj is None else ex.val(st, c.obj)
            b = V_(ex, st, c, 1) if c.obj is None else V_(ex, st, c, 0)
            if isinstance(a, Rec) and a.t == 'mapit' and isinstance(b, Rec) and b.t == 'mapit':
                fa, fb = a.f['found'], b.f['found']
                r = or_(and_(not_(fa), not_(fb)), and_(fa, fb, eq(a.f['key'], b.f['key']))); return r if op == '==' else not_(r)
            return old(ex, st, c)
        return h
    LIB['std::operator' + op] = mk3(op, LIB['std::operator' + op])
    for tn in ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator'): LIBCLS[tn]['operator' + op] = LIB['std::operator' + op]
# ---- elements of std::vector<bool>
LIBCLS['std::_Bit_reference'] = {'operator bool': lambda ex, st, c: ex.val(st, c.obj)}
def bit_asg(ex, st, c): ex.store(st, c.obj, V_(ex, st, c, 0)); return c.obj
LIBCLS['std::_Bit_reference']['operator='] = bit_asg
