"""Shared specification vocabulary: class invariants and specification functions."""
from unit import *

class WorkerSpec: pass

def rext(u, v, *ext):
    """view v with its extents fixed to the given terms"""
    if len(ext) == 1: u.st.ghost[('ext', v.buf.root)] = ext[0]
    return View(v.buf, v.dims, ext)

def fixedset_inv(u, v):
    """class invariant of FixedMultiIndexSet (compressed): CSR arrays of the non-zero entries.
    v: Rec. Returns a namespace of specification functions and the record with the invariant applied."""
    s = WorkerSpec()
    F = v.f
    s.dim = F['dim']
    u.assume(ge(s.dim, I(1))); u.assume(le(s.dim, I(2**30)))      # dimensions fit an int
    s.N = u.int('N', 0)
    s.nnz = u.int('nnz', 0)
    st, di, orr, md = rext(u, F['nzStarts'], add(s.N, I(1))), rext(u, F['nzDims'], s.nnz), rext(u, F['nzOrders'], s.nnz), rext(u, F['maxDegrees'], s.dim)
    s.rec = v.with_('nzStarts', st).with_('nzDims', di).with_('nzOrders', orr).with_('maxDegrees', md).with_('isCompressed', TRUE)
    s.starts = lambda t: u.at(st, t); s.dims = lambda i: u.at(di, i); s.orders = lambda i: u.at(orr, i); s.maxdeg = lambda d: u.at(md, d)
    t = fresh('t', 'I'); i = fresh('i', 'I'); j = fresh('j', 'I')
    u.assume(eq(s.starts(I(0)), I(0)))
    u.assume(eq(s.starts(s.N), s.nnz))
    u.assume(all_(t, I(0), s.N, le(s.starts(t), s.starts(add(t, I(1))))))
    u.assume(all_(t, I(0), add(s.N, I(1)), and_(ge(s.starts(t), I(0)), le(s.starts(t), s.nnz))))
    u.assume(all_(i, I(0), s.nnz, and_(ge(s.dims(i), I(0)), lt(s.dims(i), s.dim), ge(s.orders(i), I(1)), le(s.orders(i), s.maxdeg(s.dims(i))))))
    # each dimension occurs at most once per term
    u.assume(all_(t, I(0), s.N, all_(i, s.starts(t), s.starts(add(t, I(1))), all_(j, s.starts(t), s.starts(add(t, I(1))), or_(eq(i, j), ne(s.dims(i), s.dims(j)))))))
    return s

def worker_inv(u, this):
    """class invariant of MultivariateExpansionWorker"""
    v = u.load(this)
    s = fixedset_inv(u, v.f['multiSet_'])
    sp = rext(u, v.f['startPos_'], add(mul(I(2), s.dim), I(2)))
    md = rext(u, v.f['maxDegrees_'], s.dim)
    u.setf(this, dim_=s.dim, multiSet_=s.rec, startPos_=sp, maxDegrees_=md)
    i = fresh('i', 'I')
    u.assume(all_(i, I(0), s.dim, and_(eq(u.at(md, i), s.maxdeg(i)), ge(u.at(md, i), I(0)))))
    s.wmaxdeg = lambda d: u.at(md, d)
    s.start = lambda d: u.at(sp, d)
    d = fresh('d', 'I')
    u.assume(all_(d, I(0), add(mul(I(2), s.dim), I(2)), ge(s.start(d), I(0))))
    def term(t, phi):
        i = fresh('i', 'I')
        return prod_(i, s.starts(t), s.starts(add(t, I(1))), phi(s.dims(i), s.orders(i)))
    s.term = term
    def expansion(phi, c):
        t = fresh('t', 'I')
        return sum_(t, I(0), s.N, mul(c(t), term(t, phi)))
    s.expansion = expansion
    return s

def write_cells(ex, st, p, n, f):
    """array cells p[0..n-1] := f(0..n-1)"""
    i = fresh('i', 'I')
    old = ex.load(st, p.base)
    ext = st.ghost.get(('ext', p.base.root)) if not p.base.steps else None
    if ext is not None: ex.oblige('precondition', st, and_(ge(p.off, I(0)), le(add(p.off, n), ext)), '', 'room for the requested orders')
    r = sub(i, p.off)
    ex.store(st, p.base, lam(i, ite(and_(le(p.off, i), lt(i, add(p.off, n))), f(r), lapp(old, i))))

def basis_contract(u, cls, B):
    """contract of a one-dimensional basis class: B(n, x, k) is the k-th derivative of basis function n"""
    v = lambda ex, st, a: ex.val(st, a)
    one = I(1)
    def ev_all(ex, st, c):
        p, m, x = [v(ex, st, a) for a in c.args]
        write_cells(ex, st, p, add(m, one), lambda n: B(n, x, 0)); return None
    def ev_der(ex, st, c):
        a = [v(ex, st, q) for q in c.args]; m, x = a[-2], a[-1]
        if len(a) == 4: write_cells(ex, st, a[0], add(m, one), lambda n: B(n, x, 0))
        write_cells(ex, st, a[-3], add(m, one), lambda n: B(n, x, 1)); return None
    def ev_der2(ex, st, c):
        a = [v(ex, st, q) for q in c.args]; m, x = a[-2], a[-1]
        for k in (0, 1, 2): write_cells(ex, st, a[k], add(m, one), lambda n, k=k: B(n, x, k))
        return None
    u.contract(cls + '::EvaluateAll', ev_all); u.contract(cls + '::EvaluateDerivatives', ev_der); u.contract(cls + '::EvaluateSecondDerivatives', ev_der2)
    for k, nm in enumerate(('Evaluate', 'Derivative', 'SecondDerivative')):
        u.contract(cls + '::' + nm, lambda ex, st, c, k=k: B(v(ex, st, c.args[0]), v(ex, st, c.args[1]), k))

def fill(ex, st, v, f):
    """every element of the view v := f(indices..., old value); the rest of the buffer is unchanged"""
    idx = [fresh('w', 'I') for _ in v.dims]
    old = ex.load(st, v.buf)
    cur = old
    for w in idx: cur = lapp(cur, w)
    g = TRUE; rel = []; it = 0
    for w, (k, off) in zip(idx, v.dims):
        if k == 'f': g = and_(g, eq(w, off))
        else:
            g = and_(g, ge(w, off), lt(w, add(off, v.ext[it]))); rel.append(sub(w, off)); it += 1
    # a view of the whole of an allocation: cells outside the extents do not exist
    if not v.buf.steps and ex.bufext.get(v.buf.root) == v.ext and all(k == 'a' and off is I(0) for k, off in v.dims): g = TRUE
    body = ite(g, f(*rel, cur), cur)
    for w in reversed(idx): body = lam(w, body)
    ex.store(st, v.buf, body)

def disjoint(ex, st, a, b, loc, note, arows=None):
    """obligation: the elements of view a (its first arows rows) and of view b are different memory"""
    if a.buf != b.buf: return
    rng = lambda v: [(o, add(o, I(1)) if k == 'f' else None) for k, o in v.dims]
    def rows(v, lim=None):
        out = []; it = 0
        for k, o in v.dims:
            if k == 'f': out.append((o, add(o, I(1))))
            else:
                e = lim if it == 0 and lim is not None else v.ext[it]; it += 1; out.append((o, add(o, e)))
        return out
    ra, rb = rows(a, arows), rows(b)
    ex.oblige('precondition', st, or_(*[or_(le(ha, lb), le(hb, la), le(ha, la), le(hb, lb)) for (la, ha), (lb, hb) in zip(ra, rb)]), loc, note)
def handles(v, out):
    if isinstance(v, View): out.append(v.buf)
    elif isinstance(v, Rec):
        for x in v.f.values(): handles(x, out)
    elif isinstance(v, Vec) and v.e is not None: handles(v.e, out)
    elif isinstance(v, MapV): handles(v.v, out)
    elif isinstance(v, Clo):
        for x in v.env.values():
            if isinstance(x, V): handles(x, out)
    elif isinstance(v, Opq) and v.tag == 'merged': handles(v.data[1], out); handles(v.data[2], out)
    return out
def swap_contract(u):
    """simple_swap of two view handles: nothing else refers to either buffer, so exchanging the handles is exchanging the contents"""
    def h(ex, st, c):
        a, b = c.args
        va, vb = ex.load(st, a), ex.load(st, b)
        if not (isinstance(va, View) and isinstance(vb, View)): return PASS
        if va == vb: return None
        if va.buf == vb.buf or va.ext != vb.ext or any(k != 'a' or o is not I(0) for k, o in va.dims + vb.dims) or va.buf.steps or vb.buf.steps: raise Unsupported('swap of partial views')
        for root, v in st.store.items():
            for r in handles(v, []):
                if r in (va.buf, vb.buf) and not (Ref(root) in (Ref(a.root), Ref(b.root))): raise Unsupported('swap of a view that %s also refers to' % root)
        x, y = ex.load(st, va.buf), ex.load(st, vb.buf)
        ex.store(st, va.buf, y); ex.store(st, vb.buf, x)
        return None
    u.contract('mpart::simple_swap', h)

# ---------------------------------------------------------------- contracts of abstract maps
# method -> (argument row counts, output row count); n inputs, m outputs, k coefficients
IFACE = dict(EvaluateImpl=('n', 'm'), GradientImpl=('nm', 'n'), CoeffGradImpl=('nm', 'k'), LogDeterminantImpl=('n', None),
             LogDeterminantInputGradImpl=('n', 'n'), LogDeterminantCoeffGradImpl=('n', 'k'), InverseImpl=('xm', 'm'))
class Maps:
    """abstract functions/maps under contract: each method requires its arguments to equal given families of points and defines its output"""
    def __init__(self, u, cols):
        self.u = u; self.cols = cols; self.by = {}; self.calls = []
        for cls in ('ParameterizedFunctionBase', 'ConditionalMapBase'):
            for m in IFACE: u.contract('mpart::%s::%s' % (cls, m), lambda ex, st, c, m=m: self.handle(m, ex, st, c))
    def new(self, name, n, m, k, cls='ConditionalMapBase'):
        u = self.u
        tid = next(i for i, t in enumerate(u.prog.types) if t.get('tn') == 'mpart::' + cls and t['k'] == 'rec')
        ref = u.obj(tid, name)
        u.setf(ref, inputDim=n, outputDim=m, numCoeffs=k, savedCoeffs=u.view(name + '.coeffs', k))
        s = WorkerSpec(); s.n, s.m, s.k, s.name, s.on = n, m, k, name, {}
        s.ref = ref
        self.by[ref.root] = s
        return ObjPtr(ref), s
    def handle(self, meth, ex, st, c):
        s = self.by.get(c.obj.root) if isinstance(c.obj, Ref) else None
        if s is None or meth not in s.on: return PASS
        u = self.u
        req, out = s.on[meth]
        a = [ex.val(st, x) for x in c.args]
        i, j = fresh('i', 'I'), fresh('j', 'I')
        kinds, ok = IFACE[meth]
        for q, (kd, f) in enumerate(zip(kinds, req)):
            v = a[q]; r = {'n': s.n, 'm': s.m, 'x': sub(s.n, s.m)}[kd]
            shape = and_((ge if kd == 'x' else eq)(v.ext[0], r), eq(v.ext[1], self.cols))
            ex.oblige('precondition', st, shape, c.loc, '%s of %s is called with arguments of the right shape' % (meth, s.name))
            ex.oblige('precondition', st, imp(and_(ge(i, I(0)), lt(i, r), ge(j, I(0)), lt(j, self.cols)), eq(u.at(v, i, j, st=st), f(i, j))), c.loc,
                      '%s of %s is called at the right %s' % (meth, s.name, 'sensitivities' if kd == 'm' and meth != 'InverseImpl' else 'points'))
        o = a[-1]
        for kd, v in zip(kinds, a): disjoint(ex, st, v, o, c.loc, '%s of %s: the output is not the memory of an input' % (meth, s.name), sub(s.n, s.m) if kd == 'x' else None)
        if ok is None:
            ex.oblige('precondition', st, eq(o.ext[0], self.cols), c.loc, '%s of %s: output has one entry per point' % (meth, s.name))
            fill(ex, st, o, lambda j, old: out(j))
        else:
            ex.oblige('precondition', st, and_(eq(o.ext[0], {'n': s.n, 'm': s.m, 'k': s.k}[ok]), eq(o.ext[1], self.cols)), c.loc, '%s of %s: output of the right shape' % (meth, s.name))
            fill(ex, st, o, lambda i, j, old: out(i, j))
        return None

def view_arg(ex, st, c, i):
    v = ex.val(st, c.args[i])
    if isinstance(v, Opq) and v.tag == 'merged': raise NeedSplit(v.data[0])
    return v

# ---------------------------------------------------------------- vectors of abstract maps
class Comps:
    """the component vector of a composite map: pairwise distinct abstract maps, component k under the interface contract.
    Outputs are named by the global row they define, so each contract states which rows of the composite the component owns."""
    def __init__(self, u, N, cols, tag='comp', size=None):
        self.u, self.N, self.cols, self.tag = u, N, cols, tag
        w = fresh('w', 'I')
        self.nin = lambda k: app(tag + '.inputDim', 'I', k); self.nout = lambda k: app(tag + '.outputDim', 'I', k); self.nco = lambda k: app(tag + '.numCoeffs', 'I', k)
        if size is not None: self.nin = self.nout = lambda k: size          # all components square of one size
        L = lambda f: lam(w, f(w))
        u.st.store['heap:' + tag] = Rec('component', dict(inputDim=L(self.nin), outputDim=L(self.nout), numCoeffs=L(self.nco)))
        self.vec = Vec(N, ObjPtr(Ref('heap:' + tag, [('ix', lam(w, w))])))
        q = fresh('q', 'I')
        u.assume(all_(q, I(0), N, and_(ge(self.nin(q), I(0)), ge(self.nout(q), I(0)), ge(self.nco(q), I(0)))))
        self.on = {}; self.owner = None; self.facts = None       # facts: instances of lemmas proved for arbitrary indices
        self.S = lambda k: sum_(q, I(0), k, self.nout(q))      # first output row of component k
        self.Q = lambda k: sum_(q, I(0), k, self.nco(q))       # first coefficient of component k
        for cls in ('ParameterizedFunctionBase', 'ConditionalMapBase'):
            for m in IFACE: u.contract('mpart::%s::%s' % (cls, m), lambda ex, st, c, m=m: self.handle(m, ex, st, c))
    def is_comp(self, r): return isinstance(r, Ref) and r.root == 'heap:' + self.tag and len(r.steps) == 1
    def handle(self, meth, ex, st, c):
        if not self.is_comp(c.obj) or meth not in self.on: return PASS
        u = self.u; k = c.obj.steps[0][1]
        req, out = self.on[meth]
        a = [view_arg(ex, st, c, q) for q in range(len(c.args))]
        i, j = fresh('i', 'I'), fresh('j', 'I')
        kinds, ok = IFACE[meth]
        n, m, kk = self.nin(k), self.nout(k), self.nco(k)
        ex.oblige('precondition', st, and_(ge(k, I(0)), lt(k, self.N)), c.loc, '%s: an existing component' % meth)
        for q, (kd, f) in enumerate(zip(kinds, req)):
            v = a[q]; r = {'n': n, 'm': m, 'x': sub(n, m)}[kd]
            ex.oblige('precondition', st, and_((ge if kd == 'x' else eq)(v.ext[0], r), eq(v.ext[1], self.cols)), c.loc, '%s of component k is called with arguments of the right shape' % meth)
            pre = [self.facts(k, i, j), ge(k, I(0))] if self.facts else []
            ex.oblige('precondition', st, imp(and_(ge(i, I(0)), lt(i, r), ge(j, I(0)), lt(j, self.cols), *pre), eq(u.at(v, i, j, st=st), f(k, i, j))), c.loc,
                      '%s of component k is called at its own block of %s' % (meth, 'inputs' if q == 0 else 'targets' if meth == 'InverseImpl' else 'sensitivities'))
        o = a[-1]
        for kd, v in zip(kinds, a): disjoint(ex, st, v, o, c.loc, '%s of component k: the output is not the memory of an input' % meth, sub(n, m) if kd == 'x' else None)
        if ok is None:
            ex.oblige('precondition', st, eq(o.ext[0], self.cols), c.loc, '%s of component k: output has one entry per point' % meth)
            fill(ex, st, o, lambda j, old: out(k, j))
        else:
            ex.oblige('precondition', st, and_(eq(o.ext[0], {'n': n, 'm': m, 'k': kk}[ok]), eq(o.ext[1], self.cols)), c.loc, '%s of component k: output of the right shape' % meth)
            fill(ex, st, o, lambda i, j, old: out(k, i, j))
        return None

    def coeffs(self):
        """components hold coefficient vectors C(k, .) and flags isset(k)"""
        u = self.u; tag = self.tag
        self.isset = lambda k: or_(eq(self.nco(k), I(0)), app(tag + '.isset', 'B', k))
        k, i = fresh('k', 'I'), fresh('i', 'I')
        self.C = lambda k, i: app(tag + '.coeff', 'R', add(self.Q(k), i))     # named by the global coefficient index
        u.st.store['heap:%s.coeffs' % tag] = lam(k, lam(i, self.C(k, i)))
        def checked(ex, st, c):
            if not self.is_comp(c.obj) or c.args: return PASS
            return self.isset(c.obj.steps[0][1])
        def get(ex, st, c):
            if not self.is_comp(c.obj): return PASS
            q = c.obj.steps[0][1]
            return View(Ref('heap:%s.coeffs' % tag), [('f', q), ('a', I(0))], [self.nco(q)])
        for cls in ('ParameterizedFunctionBase', 'ConditionalMapBase'):
            u.contract('mpart::%s::CheckCoefficients' % cls, checked); u.contract('mpart::%s::Coeffs' % cls, get)
        self.wraps()
    def wraps(self):
        """component k's WrapCoeffs: requires a vector of its own length, records the memory it now follows"""
        u = self.u; w = fresh('w', 'I')
        u.st.store['ghost:wrapped'] = lam(w, FALSE)
        self.bufs = []
        def wrap(ex, st, c):
            if not self.is_comp(c.obj): return PASS
            k = c.obj.steps[0][1]; v = view_arg(ex, st, c, 0)
            ex.oblige('precondition', st, and_(ge(k, I(0)), lt(k, self.N), eq(v.ext[0], self.nco(k))), c.loc, 'WrapCoeffs: the slice has the length of the component')
            ex.oblige('precondition', st, eq(v.dims[0][1], self.Q(k)), c.loc, 'WrapCoeffs: the slice starts after the coefficients of the earlier components')
            if self.owner is not None: ex.oblige('precondition', st, B(v.buf == u.load(self.owner, st).f['savedCoeffs'].buf), c.loc, 'WrapCoeffs: the slice lies in the memory of the composite map')
            self.bufs.append(v.buf)
            ex.store(st, Ref('ghost:wrapped', [('ix', k)]), TRUE)
            return None
        for cls in ('ParameterizedFunctionBase', 'ConditionalMapBase'): u.contract('mpart::%s::WrapCoeffs' % cls, wrap)
    def check_wrapped(self, saved, K):
        u = self.u; k = u.int('kw')
        u.post('every component follows its slice of the composite coefficients', and_(lapp(u.st.store['ghost:wrapped'], k), B(len(self.bufs) > 0 and all(b == saved.buf for b in self.bufs[-1:]))), hyps=[lt(k, K)])
