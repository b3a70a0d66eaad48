"""C20: sums, products, reductions and factorisations of matrices compute the documented linear algebra."""
from unit import *
from spec_common import *
import dense
from dense import EMap, EM, Fact
P = 'C20'; TU = 'C20'
N = 'mpart::'
def same_types(u, f, *pats):
    s = u.sig(f); return len(s) == len(pats) and all(x.split('Kokkos::View<')[-1].replace('Kokkos::', '').replace(', HostSpace>', '') == p for x, p in zip(s, pats))
def pick(u, name, *pats, nargs=None): return u.fn(N + name, pred=lambda f: 'body' in f and same_types(u, f, *pats))
# ---- sums
V1, C1 = 'double *', 'const double *'
L2, R2, CL2, CR2, D2 = 'double **, LayoutLeft', 'double **, LayoutRight', 'const double **, LayoutLeft', 'const double **, LayoutRight', 'double **'
for a, b in ((V1, C1), (L2, CR2), (R2, CL2)):
    @unit(P, name='AddInPlace (%s; %s)' % (a, b), targets=N + 'AddInPlace')
    def _(u, a=a, b=b):
        f = pick(u, 'AddInPlace', a, b); r = 1 if a == V1 else 2
        e = [u.int('n%d' % q) for q in range(r)]; x, y = u.view('x', *e), u.view('y', *e)
        i = [u.int('i%d' % q) for q in range(r)]; inr = [lt(p, q) for p, q in zip(i, e)]
        want = add(u.at(x, *i), u.at(y, *i)); y0 = u.at(y, *i)
        o = u.call(f, None, [x, y]); u.nothrow(o)
        u.post('every element is the sum', eq(u.at(x, *i), want), hyps=inr)
        u.post('the second operand is unchanged', eq(u.at(y, *i), y0))
        u.post('elements outside the extents are unchanged', eq(u.at(x, *i), sub(want, y0)), hyps=[or_(*[ge(p, q) for p, q in zip(i, e)])])
for a, b in ((C1, C1), (V1, V1), (CL2, CR2), (CR2, CL2), (R2, L2)):
    @unit(P, name='operator+ (%s; %s)' % (a, b), targets=N + 'operator+')
    def _(u, a=a, b=b):
        f = pick(u, 'operator+', a, b); r = 1 if a in (V1, C1) else 2
        e = [u.int('n%d' % q) for q in range(r)]; x, y = u.view('x', *e), u.view('y', *e)
        i = [u.int('i%d' % q) for q in range(r)]; inr = [lt(p, q) for p, q in zip(i, e)]
        x0, y0 = u.at(x, *i), u.at(y, *i)
        o = u.call(f, None, [x, y]); u.nothrow(o)
        u.post('extents of the sum', and_(*[eq(p, q) for p, q in zip(o.ret.ext, e)]))
        u.post('every element is the sum', eq(u.at(o.ret, *i), add(x0, y0)), hyps=inr)
        u.post('the operands are unchanged', and_(eq(u.at(x, *i), x0), eq(u.at(y, *i), y0)))
        u.post('the sum is new memory', B(o.ret.buf not in (x.buf, y.buf)))
for a, b in ((V1, C1), (V1, V1), (L2, R2)):
    @unit(P, name='operator+= (%s; %s)' % (a, b), targets=N + 'operator+=')
    def _(u, a=a, b=b):
        f = pick(u, 'operator+=', a, b); r = 1 if a == V1 else 2
        e = [u.int('n%d' % q) for q in range(r)]; x, y = u.view('x', *e), u.view('y', *e); xr = u.ref(x, 'x')
        i = [u.int('i%d' % q) for q in range(r)]; inr = [lt(p, q) for p, q in zip(i, e)]
        x0, y0 = u.at(x, *i), u.at(y, *i)
        o = u.call(f, None, [xr, y]); u.nothrow(o)
        u.post('every element is the sum', eq(u.at(x, *i), add(x0, y0)), hyps=inr)
        u.post('the second operand is unchanged', eq(u.at(y, *i), y0))
        u.post('returns its first operand', B(o.ret == xr and u.load(xr) == x))
# ---- transposes
T_ = N + 'TransposeObject'
def tobj(u, f, name, tr):
    """TransposeObject around an r x c view"""
    r, c = u.int(name + '.r'), u.int(name + '.c'); u.assume(and_(le(r, I(2**31 - 1)), le(c, I(2**31 - 1))))
    v = u.view(name, r, c)
    rec = Rec('mpart::TransposeObject<Kokkos::HostSpace>', dict(isTransposed=tr, view=v))
    R, C = ite(tr, c, r), ite(tr, r, c)
    w = lambda i, j: ite(tr, u.at(v, j, i), u.at(v, i, j))
    return rec, v, R, C, w
for m in ('rows', 'cols'):
    @unit(P, name='TransposeObject_' + m, targets=T_ + '::' + m)
    def _(u, m=m):
        f = u.fn(T_ + '::' + m); tr = u.bool('tr'); rec, v, R, C, w = tobj(u, f, 'A', tr)
        o = u.call(f, u.ref(rec), []); u.nothrow(o)
        u.post('extent of the operand as it enters products', eq(o.ret, R if m == 'rows' else C))
@unit(P, name='transpose (view)', targets=N + 'transpose')
def _(u):
    f = u.fn(N + 'transpose', pred=lambda f: 'body' in f and 'Kokkos::View' in u.sig(f)[0]); v = u.view('A', u.int('r'), u.int('c'))
    o = u.call(f, None, [v]); u.nothrow(o)
    u.post('refers to the same matrix, transposed', and_(o.ret.f['isTransposed'], B(o.ret.f['view'] == v)))
@unit(P, name='transpose (transposed operand)', targets=N + 'transpose')
def _(u):
    f = u.fn(N + 'transpose', pred=lambda f: 'body' in f and 'TransposeObject' in u.sig(f)[0]); tr = u.bool('tr'); rec, v, R, C, w = tobj(u, f, 'A', tr)
    o = u.call(f, None, [rec]); u.nothrow(o)
    u.post('transposing twice returns the matrix itself', and_(eq(ite(o.ret.f['isTransposed'], I(1), I(0)), ite(tr, I(0), I(1))), B(o.ret.f['view'] == v)))
# ---- products
def dg(u, f): return 'TransposeObject' in u.sig(f)[1]
def matprod(wA, K, wB, i, j):
    k = fresh('k', 'I'); return sum_(k, I(0), K, mul(wA(i, k), wB(k, j)))
for ta in (0, 1):
    for tb in (0, 1):
        @unit(P, name='dgemm (%s, %s)' % (('A', 'A^T')[ta], ('B', 'B^T')[tb]), targets=N + 'dgemm')
        def _(u, ta=ta, tb=tb):
            f = u.fn(N + 'dgemm', pred=lambda f: 'body' in f and dg(u, f))
            A, va, Ra, Ca, wa = tobj(u, f, 'A', B(ta == 1)); Bo, vb, Rb, Cb, wb = tobj(u, f, 'B', B(tb == 1))
            u.assume(eq(Ca, Rb)); c = u.view('C', Ra, Cb); al, be = u.real('alpha'), u.real('beta')
            i, j = u.int('i'), u.int('j'); inr = [lt(i, Ra), lt(j, Cb)]
            want = add(mul(be, u.at(c, i, j)), mul(al, matprod(wa, Ca, wb, i, j))); a0, b0 = u.at(va, i, j), u.at(vb, i, j)
            o = u.call(f, None, [al, A, Bo, be, c]); u.nothrow(o)
            u.post('C becomes beta C + alpha op(A) op(B)', eq(u.at(c, i, j), want), hyps=inr)
            u.post('the operands are unchanged', and_(eq(u.at(va, i, j), a0), eq(u.at(vb, i, j), b0)))
def dgemm_contract(u):
    def h(ex, st, c):
        al, A, Bo, be, C = [ex.val(st, a) for a in c.args]
        if not isinstance(A, Rec): return PASS
        def op(X):
            v, t = X.f['view'], X.f['isTransposed']; snap = st.clone()
            if isinstance(t, T) and t.op not in ('true', 'false') and t is not TRUE and t is not FALSE: raise Unsupported('branch-dependent transpose')
            t = t is TRUE
            return (v.ext[1], v.ext[0], lambda i, j: ex.load(snap, v.at([j, i]))) if t else (v.ext[0], v.ext[1], lambda i, j: ex.load(snap, v.at([i, j])))
        ra, ca, wa = op(A); rb, cb, wb = op(Bo)
        ex.oblige('precondition', st, and_(eq(ca, rb), eq(C.ext[0], ra), eq(C.ext[1], cb)), c.loc, 'the shapes of the product agree')
        fill(ex, st, C, lambda i, j, cur: add(mul(be, cur), mul(al, matprod(wa, ca, wb, i, j))))
        return UNDEF
    u.contract(N + 'dgemm', h)
for nm, ka, kb in (('transposed operands', 't', 't'), ('views', 'v', 'v'), ('transposed, view', 't', 'v'), ('view, transposed', 'v', 't')):
    for ta in ((0, 1) if ka == 't' else (0,)):
        for tb in ((0, 1) if kb == 't' else (0,)):
            @unit(P, name='operator* (%s%s)' % (nm, '' if ka + kb == 'vv' else ': %d%d' % (ta, tb)), targets=N + 'operator*')
            def _(u, ka=ka, kb=kb, ta=ta, tb=tb):
                f = u.fn(N + 'operator*', pred=lambda f: 'body' in f and [('TransposeObject' in s) for s in u.sig(f)] == [ka == 't', kb == 't'])
                dgemm_contract(u)
                A, va, Ra, Ca, wa = tobj(u, f, 'A', B(ta == 1)); Bo, vb, Rb, Cb, wb = tobj(u, f, 'B', B(tb == 1)); u.assume(eq(Ca, Rb))
                i, j = u.int('i'), u.int('j'); inr = [lt(i, Ra), lt(j, Cb)]; want = matprod(wa, Ca, wb, i, j); a0, b0 = u.at(va, i, j), u.at(vb, i, j)
                o = u.call(f, None, [A if ka == 't' else va, Bo if kb == 't' else vb]); u.nothrow(o)
                u.post('extents of the product', and_(eq(o.ret.ext[0], Ra), eq(o.ret.ext[1], Cb)))
                u.post('every element is the inner product of a row and a column', eq(u.at(o.ret, i, j), want), hyps=inr)
                u.post('the operands are unchanged and the product is new memory', and_(eq(u.at(va, i, j), a0), eq(u.at(vb, i, j), b0), B(o.ret.buf not in (va.buf, vb.buf))))
@unit(P, name='dgemm (views)', targets=N + 'dgemm')
def _(u):
    f = u.fn(N + 'dgemm', pred=lambda f: 'body' in f and not dg(u, f)); dgemm_contract(u)
    r, k, c = u.int('r'), u.int('k'), u.int('c'); a, b, o_ = u.view('A', r, k), u.view('B', k, c), u.view('C', r, c); al, be = u.real('alpha'), u.real('beta')
    i, j = u.int('i'), u.int('j'); inr = [lt(i, r), lt(j, c)]
    want = add(mul(be, u.at(o_, i, j)), mul(al, matprod(lambda i, j: u.at(a, i, j), k, lambda i, j: u.at(b, i, j), i, j)))
    o = u.call(f, None, [al, a, b, be, o_]); u.nothrow(o)
    u.post('C becomes beta C + alpha A B', eq(u.at(o_, i, j), want), hyps=inr)
# ---- reductions over one dimension
for kind in ('sum', 'norm'):
    for dim in (0, 1):
        cl = 'ReduceDim<mpart::ReduceDimMap::%s, Kokkos::HostSpace%s>' % (kind, '' if dim else ', 0')
        def rd_fn(u, m, cl=cl): return u.fn(N + 'ReduceDim::' + m, pred=lambda f: 'body' in f and cl in f['q'])
        def rd_obj(u, f, dim=dim):
            this = u.obj(f); r, c = u.int('r'), u.int('c'); A = u.view('A', r, c); kept = (r, c)[1 - dim]
            u.setf(this, value_count=kept, A_=A, alpha_=u.real('alpha')); return this, r, c, A, kept
        @unit(P, name='ReduceDim_%s_%d_constructor' % (kind, dim), targets=N + 'ReduceDim::ReduceDim')
        def _(u, dim=dim, rd_fn=rd_fn):
            f = rd_fn(u, 'ReduceDim'); this = u.obj(f); r, c = u.int('r'), u.int('c'); A = u.view('A', r, c); al = u.real('alpha')
            o = u.call(f, this, [A, al]); u.nothrow(o); F = u.load(this).f
            u.post('keeps the matrix, the factor and the length of the result', and_(eq(F['value_count'], (r, c)[1 - dim]), eq(F['alpha_'], al), B(F['A_'] == A)))
        @unit(P, name='ReduceDim_%s_%d_operator()' % (kind, dim), targets=N + 'ReduceDim::operator()')
        def _(u, dim=dim, kind=kind, rd_fn=rd_fn, rd_obj=rd_obj):
            f = rd_fn(u, 'operator()'); this, r, c, A, kept = rd_obj(u, f); q = u.int('q'); u.assume(lt(q, (r, c)[dim]))
            s = u.array('s', ext=kept); i = u.int('i'); al = u.load(this).f['alpha_']
            a = u.at(A, i, q) if dim == 1 else u.at(A, q, i)
            s0 = u.at(s, i); want = add(s0, mul(al, mul(a, a) if kind == 'norm' else a))
            o = u.call(f, this, [q, s]); u.nothrow(o)
            u.post('adds the factor times every element of the row or column', eq(u.at(s, i), want), hyps=[lt(i, kept)])
            u.post('nothing else is written', eq(u.at(s, i), s0), hyps=[ge(i, kept)])
        @unit(P, name='ReduceDim_%s_%d_join' % (kind, dim), targets=N + 'ReduceDim::join')
        def _(u, rd_fn=rd_fn, rd_obj=rd_obj):
            f = rd_fn(u, 'join'); this, r, c, A, kept = rd_obj(u, f); d, s = u.array('d', ext=kept), u.array('s', ext=kept); i = u.int('i')
            want = add(u.at(d, i), u.at(s, i)); s0 = u.at(s, i)
            o = u.call(f, this, [d, s]); u.nothrow(o)
            u.post('partial results are added', and_(eq(u.at(d, i), want), eq(u.at(s, i), s0)), hyps=[lt(i, kept)])
        @unit(P, name='ReduceDim_%s_%d_init' % (kind, dim), targets=N + 'ReduceDim::init')
        def _(u, rd_fn=rd_fn, rd_obj=rd_obj):
            f = rd_fn(u, 'init'); this, r, c, A, kept = rd_obj(u, f); d = u.array('d', ext=kept); i = u.int('i')
            o = u.call(f, this, [d]); u.nothrow(o)
            u.post('a partial result starts at zero', eq(u.at(d, i), R(0)), hyps=[lt(i, kept)])
# ---- factorisations
def solver(u, f, field, kind):
    """object holding the factorisation of an arbitrary nonsingular n x n matrix"""
    n = u.int('n'); A0 = fun2('A')
    F = dense.factor(u.ex, kind, EM(n, n, A0)); this = u.obj(f)
    u.setf(this, **{field: ObjPtr(u.ref(F, 'fact')), 'isComputed': TRUE})
    i, j, k = fresh('i', 'I'), fresh('j', 'I'), fresh('k', 'I')
    lu = lambda i, j: (lambda k: sum_(k, I(0), n, mul(F.L(i, k), F.U(k, j))))(fresh('k', 'I'))
    if kind == 'LU':
        p, pi = F.perm
        u.assume(all_(i, I(0), n, and_(ge(p(i), I(0)), lt(p(i), n), eq(pi(p(i)), i))))
        u.assume(all_(i, I(0), n, all_(j, I(0), n, eq(lu(i, j), A0(pi(i), j)))))
    else: u.assume(all_(i, I(0), n, all_(j, I(0), n, eq(lu(i, j), A0(i, j)))))
    return this, n, A0, F
def lleft(u, v):
    """column-major view with an arbitrary distance between columns"""
    u.ex.lay[v.buf.root] = 'L'; return v
def fun2(name): return lambda i, j: app(name, 'R', i, j)
def swap(u, f, K, M, what):
    """sum_k<K sum_m<M f(k,m) = sum_m<M sum_k<K f(k,m), by induction over K; the step splits the inner sums by induction over M"""
    k, m = fresh('k', 'I'), fresh('m', 'I'); t = fresh('t', 'I'); pos = [ge(t, I(0))]
    inst, nf = f, fresh('F', 'I').id; f = lambda k, m: app('F#%d' % nf, 'R', k, m)          # proved for an arbitrary function, used for the given one
    G = lambda t, m: sum_(k, I(0), t, f(k, m))
    L = lambda t: sum_(k, I(0), t, sum_(m, I(0), M, f(k, m)))
    R_ = lambda t, r: sum_(m, I(0), r, G(t, m))
    split = lambda r: eq(R_(add(t, I(1)), r), add(R_(t, r), sum_(m, I(0), r, f(t, m))))
    r = fresh('r', 'I'); O = lambda nm, hyps, goal: u.ex.obls.append(calc_obl(u, nm, hyps, goal))
    O('inner sums split off their last term in %s (base)' % what, pos, split(I(0)))
    O('inner sums split off their last term in %s (step)' % what, pos + [ge(r, I(0)), split(r)], split(add(r, I(1))))
    O('order of summation in %s (base)' % what, [], eq(L(I(0)), R_(I(0), M)))
    O('order of summation in %s (step)' % what, pos + [split(M), eq(L(t), R_(t, M))], eq(L(add(t, I(1))), R_(add(t, I(1)), M)))
    f = inst; u.assume(eq(L(K), R_(K, M)))
def calc_obl(u, nm, hyps, goal):
    import unit
    return unit.Obl('lemma', nm, '', list(u.ex.hyps) + list(hyps), goal, u.name)
def check_solve(u, n, A0, F, X0, W, Y, pre, q, i, j):
    """A W = X0 at (i,j) from L Y = pre, U W = Y and (row q of L U) = row i of A"""
    k, m = fresh('k', 'I'), fresh('m', 'I'); S = lambda f: (lambda k: sum_(k, I(0), n, f(k)))(fresh('k', 'I'))
    g = lambda m, k: mul(mul(F.L(q, m), F.U(m, k)), W(k, j))
    swap(u, lambda k, m: g(m, k), n, n, 'L (U X)')
    u.lemma('a row of A times the solution, through the factors', eq(S(lambda k: mul(A0(i, k), W(k, j))), S(lambda k: S(lambda m: g(m, k)))))
    u.lemma('the factors applied one after the other', eq(S(lambda m: S(lambda k: g(m, k))), S(lambda m: mul(F.L(q, m), S(lambda k: mul(F.U(m, k), W(k, j)))))))
    u.lemma('the inner system gives the intermediate solution', eq(S(lambda m: mul(F.L(q, m), S(lambda k: mul(F.U(m, k), W(k, j))))), S(lambda m: mul(F.L(q, m), Y(m, j)))))
for kind, cl, field in (('LU', 'PartialPivLU', 'luSolver_'), ('LLT', 'Cholesky', 'cholSolver_')):
    @unit(P, name=cl + '_compute', targets=N + cl + '::compute')
    def _(u, kind=kind, cl=cl, field=field):
        f = u.fn(N + cl + '::compute', pred=lambda f: 'body' in f); this = u.obj(f); n = u.int('n'); A = lleft(u, u.view('A', n, n)); i, j = u.int('i'), u.int('j'); a0 = u.at(A, i, j)
        o = u.call(f, this, [A]); u.nothrow(o); F = u.load(this).f; p = F[field]; ft = u.load(p.ref) if isinstance(p, ObjPtr) else None
        u.post('holds the factorisation of the given matrix', and_(B(isinstance(ft, Fact) and ft.kind == kind), eq(ft.n, n), eq(ft.A(i, j), a0), F['isComputed']) if isinstance(ft, Fact) else FALSE, hyps=[lt(i, n), lt(j, n)])
        u.post('the matrix is unchanged', eq(u.at(A, i, j), a0))
    @unit(P, name=cl + '_solveInPlace', targets=N + cl + '::solveInPlace')
    def _(u, kind=kind, cl=cl, field=field):
        f = u.fn(N + cl + '::solveInPlace', pred=lambda f: 'body' in f); this, n, A0, F = solver(u, f, field, kind)
        m = u.int('m'); x = lleft(u, u.view('X', n, m)); X0 = fun2('X'); i, j = u.int('i'), u.int('j'); u.assume(and_(lt(i, n), lt(j, m)))
        del dense.LAST[:]
        o = u.call(f, this, [x]); u.nothrow(o)
        for h in u.st.pc: u.assume(h)
        if len(dense.LAST) == 2:
            Y, W = dense.LAST[0][1], dense.LAST[1][1]
            check_solve(u, n, A0, F, X0, W, Y, dense.LAST[0][2].fn, F.perm[0](i) if kind == 'LU' else i, i, j)
        k = fresh('k', 'I')
        u.post('A times the result is the right-hand side', eq(sum_(k, I(0), n, mul(A0(i, k), u.at(x, k, j))), X0(i, j)))
    @unit(P, name=cl + '_solve', targets=N + cl + '::solve')
    def _(u, cl=cl):
        f = u.fn(N + cl + '::solve', pred=lambda f: 'body' in f); this = u.obj(f); n, m = u.int('n'), u.int('m'); x = u.view('X', n, m); i, j = u.int('i'), u.int('j'); X0 = fun2('X')
        def h(ex, st, c):
            v = ex.val(st, c.args[0]); old = ex.load(st, v.buf); ex.oblige('precondition', st, and_(eq(v.ext[0], n), eq(v.ext[1], m)), c.loc, 'the solution has the shape of the right-hand side')
            p, q = fresh('p', 'I'), fresh('q', 'I')
            ex.oblige('precondition', st, all_(p, I(0), n, all_(q, I(0), m, eq(lapp(lapp(old, p), q), X0(p, q)))), c.loc, 'the system is solved for the given right-hand side')
            fill(ex, st, v, lambda i, j, cur: app('solution', 'R', i, j)); return UNDEF
        u.contract(N + cl + '::solveInPlace', h)
        o = u.call(f, this, [x]); u.nothrow(o)
        u.post('the solution of the system in a new matrix', and_(eq(o.ret.ext[0], n), eq(o.ret.ext[1], m), eq(u.at(o.ret, i, j), app('solution', 'R', i, j))), hyps=[lt(i, n), lt(j, m)])
        u.post('the right-hand side is unchanged', and_(eq(u.at(x, i, j), X0(i, j)), B(o.ret.buf != x.buf)))
    @unit(P, name=cl + '_determinant', targets=N + cl + '::determinant')
    def _(u, kind=kind, cl=cl, field=field):
        f = u.fn(N + cl + '::determinant', pred=lambda f: 'body' in f); this, n, A0, F = solver(u, f, field, kind)
        dl = app('detL', 'R', F.det)
        if kind == 'LLT': u.assume(eq(mul(dl, dl), F.det))            # det(L L^T) = det(L)^2
        o = u.call(f, this, []); u.nothrow(o)
        u.post('the determinant of the factored matrix', eq(o.ret, F.det))
@unit(P, name='Cholesky_solveInPlaceL', targets=N + 'Cholesky::solveInPlaceL')
def _(u):
    f = u.fn(N + 'Cholesky::solveInPlaceL', pred=lambda f: 'body' in f); this, n, A0, F = solver(u, f, 'cholSolver_', 'LLT')
    m = u.int('m'); x = lleft(u, u.view('X', n, m)); X0 = fun2('X'); i, j = u.int('i'), u.int('j'); u.assume(and_(lt(i, n), lt(j, m)))
    o = u.call(f, this, [x]); u.nothrow(o); k = fresh('k', 'I')
    u.post('L times the result is the right-hand side', eq(sum_(k, I(0), n, mul(F.L(i, k), u.at(x, k, j))), X0(i, j)))
@unit(P, name='Cholesky_multiplyL', targets=N + 'Cholesky::multiplyL')
def _(u):
    f = u.fn(N + 'Cholesky::multiplyL', pred=lambda f: 'body' in f); this, n, A0, F = solver(u, f, 'cholSolver_', 'LLT')
    m = u.int('m'); x = lleft(u, u.view('X', n, m)); X0 = fun2('X'); i, j = u.int('i'), u.int('j'); u.assume(and_(lt(i, n), lt(j, m)))
    o = u.call(f, this, [x]); u.nothrow(o); k = fresh('k', 'I')
    u.post('L times the operand, in a new matrix', and_(eq(o.ret.ext[0], n), eq(o.ret.ext[1], m), eq(u.at(o.ret, i, j), sum_(k, I(0), n, mul(F.L(i, k), X0(k, j)))), B(o.ret.buf != x.buf)))
    u.post('the operand is unchanged', eq(u.at(x, i, j), X0(i, j)))
