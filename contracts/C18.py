"""C18: each save / load / serialize pair restores every field it saves: an archive is the sequence of items written; reading consumes it in order, with equal types, and hands back equal values in memory of their own."""
import re
from unit import *
from spec_common import *
P = 'C18'; TU = 'C18'
N = 'mpart::'
SCALAR = ('int', 'enum', 'bool', 'real')
def tkey(ty):
    if ty['k'] in SCALAR: return (ty['k'], ty.get('w') or ty.get('bits'), ty.get('sg'), ty.get('s'))
    return re.sub(r'\bconst\b|\s', '', ty.get('s') or ty['k'])
# what the save / load pair of a class restores (each proved below); other members are left to load
RESTORES = {N + 'QuadratureBase': ('fdim_', 'maxDim_', 'workspaceSize_', 'internalWork_'), N + 'RecursiveQuadratureBase': ('fdim_', 'maxDim_', 'workspaceSize_', 'internalWork_', 'maxSub_', 'minSub_', 'absTol_', 'relTol_', 'errorMetric_'),
    N + 'MultivariateExpansionWorker': ('dim_', 'multiSet_', 'basis1d_', 'startPos_', 'cacheSize_', 'maxDegrees_')}
RESTORES[N + 'ClenshawCurtisQuadrature'] = RESTORES[N + 'QuadratureBase'] + ('pts_', 'wts_', 'numPts_')
RESTORES[N + 'AdaptiveSimpson'] = RESTORES[N + 'RecursiveQuadratureBase']
RESTORES[N + 'AdaptiveClenshawCurtis'] = RESTORES[N + 'RecursiveQuadratureBase'] + ('coarsePts_', 'coarseWts_', 'finePts_', 'fineWts_')
EMPTY = (N + 'ConditionalMapBase', N + 'ParameterizedFunctionBase')     # write nothing (proved below)
class Item:
    def __init__(s, key, what, v, cond): s.key = key; s.what = what; s.v = v; s.cond = cond; s.read = None
class Base:
    def __init__(s, tn, ref): s.tn = tn; s.ref = ref
class Bin:
    def __init__(s, p, n, ty): s.p = p; s.n = n; s.ty = ty
def content(ex, st, w):
    """elements of a view, as a function of its indices"""
    if len(w.ext) == 1:
        j = fresh('w', 'I'); return lam(j, ex.load(st, w.at([j])))
    i, j = fresh('w', 'I'), fresh('w', 'I'); return lam(i, lam(j, ex.load(st, w.at([i, j]))))
def snap(ex, st, v):
    """value with everything it refers to, at this moment"""
    if isinstance(v, View): return ('view', v.ext, content(ex, st, v), v)
    if isinstance(v, Rec): return ('rec', v.t, {k: snap(ex, st, x) for k, x in v.f.items()})
    return ('val', v)
def restore(ex, st, s, old=None):
    """an equal value in memory of its own"""
    if s[0] == 'view':
        r = ex.newroot(st, s[2], 'loaded'); ex.allocd[r.root] = True; ex.bufext[r.root] = tuple(s[1]); ex.lay[r.root] = ex.lay.get(s[3].buf.root, 'R')
        if len(s[1]) == 1: st.ghost[('ext', r.root)] = s[1][0]
        return View(r, [('a', I(0))] * len(s[1]), s[1])
    if s[0] == 'rec':
        keep = RESTORES.get(strip_targs(s[1])); d = dict(old.f) if isinstance(old, Rec) else {}
        for k, x in s[2].items():
            if (keep is None or k in keep) and not isinstance(x[1], (Ptr, ObjPtr, Null)): d[k] = restore(ex, st, x, d.get(k))
        return Rec(s[1], d)
    return s[1]
def restore_base(ex, st, it, ref):
    """only the members of the base class are read"""
    cur = ex.load(st, ref)
    for k in RESTORES[it.key]: cur = cur.with_(k, restore(ex, st, it.v[2][k], cur.f.get(k)))
    ex.store(st, ref, cur)
def archive(u):
    """cereal's archives: items are written in order and read back in order (assumed for scalars, strings, raw memory, pointers and vectors of pointers; proved below for the classes)"""
    tape = []; pos = [0]; u.tape = tape; u.pos = pos; ex = u.ex
    def rel(st): return and_(*[c for c in st.pc if c not in base])
    base = set(u.st.pc)
    def arg(ex, st, c, k, a):
        ty = c.fr.prog.unref(c.f['ps'][k]['t']); v = ex.val(st, a); return ty, v
    def put(st, key, what, v): tape.append(Item(key, what, v, rel(st)))
    def write(ex, st, c):
        for k, a in enumerate(c.args):
            ty, v = arg(ex, st, c, k, a)
            if isinstance(v, Base):
                if v.tn in EMPTY: continue
                put(st, v.tn, 'base', snap(ex, st, ex.load(st, v.ref)))
            elif isinstance(v, Bin): put(st, tkey(v.ty), 'bin', (v.n, raw(ex, st, v.p, v.n)))
            else: put(st, tkey(ty), 'obj', snap(ex, st, v))
        return Opq('archive')
    def nxt(ex, st, key, what, loc):
        ok = pos[0] < len(tape) and tape[pos[0]].key == key and tape[pos[0]].what == what
        ex.oblige('precondition', st, B(ok), loc, 'what is read next (%s) is what was written' % (key if isinstance(key, str) else key[0]))
        if not ok: raise Unsupported('archive item %r' % (key,)) if False else Mismatch()
        it = tape[pos[0]]; pos[0] += 1; ex.oblige('precondition', st, it.cond, loc, 'the item was written in this case'); it.read = rel(st); return it
    def read(ex, st, c):
        try:
            for k, a in enumerate(c.args):
                ty, v = arg(ex, st, c, k, a)
                if isinstance(v, Base):
                    if v.tn in EMPTY: continue
                    restore_base(ex, st, nxt(ex, st, v.tn, "base", c.loc), v.ref)
                elif isinstance(v, Bin):
                    n, f = nxt(ex, st, tkey(v.ty), 'bin', c.loc).v; ex.oblige('precondition', st, eq(n, v.n), c.loc, 'as many bytes are read as were written'); unraw(ex, st, v.p, v.n, f)
                else: ex.store(st, a, restore(ex, st, nxt(ex, st, tkey(ty), 'obj', c.loc).v, v))
        except Mismatch: pos[0] += 1000
        return Opq('archive')
    def raw(ex, st, p, n):
        if isinstance(p, Opq): w = p.data; return ('mat', w.ext, content(ex, st, w))
        j = fresh('w', 'I'); return ('arr', lam(j, ex.load(st, p.base.sub(('ix', add(p.off, j))))))
    def unraw(ex, st, p, n, f):
        if f[0] == 'mat':
            w = p.data; ex.oblige('precondition', st, and_(eq(w.ext[0], f[1][0]), eq(w.ext[1], f[1][1])), '', 'contiguous matrices of one layout hold equal bytes when their extents are equal')
            ex.store(st, w.buf, f[2]); return
        j = fresh('w', 'I'); r = sub(j, p.off); old = ex.load(st, p.base); e = st.ghost.get(('ext', p.base.root)); cnt = idiv(n, I(p.sz))
        if e is not None: ex.oblige('bounds', st, le(add(p.off, cnt), e), '', 'the bytes read fit into the array')
        ex.store(st, p.base, lam(j, ite(and_(ge(r, I(0)), lt(r, cnt)), lapp(f[1], r), lapp(old, j))))
    u.contract('cereal::OutputArchive::operator()', write); u.contract('cereal::InputArchive::operator()', read)
    def base_class(ex, st, c):
        p = ex.val(st, c.args[0]); t = c.t if c.t is not None and c.t['k'] == 'rec' else c.fr.prog.types[c.f['cls']]; return Base(strip_targs(c.fr.prog.types[t['ta'][0]['ty']]['s']), p.ref)
    import libmodel
    libmodel.LIBCLS['cereal::base_class'] = dict(ctor=base_class)
    def binary(ex, st, c):
        p = ex.val(st, c.args[0]); d = c.fr.prog.unref(c.f['ps'][0]['t']); d = c.fr.prog.types[d['to']]; sz = 8 if d['k'] == 'real' else 4
        if isinstance(p, Ptr): q = SPtr(p.base, p.off); q.sz = sz; p = q
        elif not isinstance(p, Opq): raise Unsupported('binary data %r' % (p,))
        return Bin(p, ex.val(st, c.args[1]), d)
    u.contract('cereal::binary_data', binary)
    # a saved view: written and read back with an equal copy (the units for views prove this of cereal::save and cereal::load)
    def vsave(ex, st, c): put(st, tkey(c.fr.prog.unref(c.f['ps'][1]['t'])), 'obj', snap(ex, st, ex.val(st, c.args[1]))); return UNDEF
    def vload(ex, st, c):
        try: ex.store(st, c.args[1], restore(ex, st, nxt(ex, st, tkey(c.fr.prog.unref(c.f['ps'][1]['t'])), 'obj', c.loc).v))
        except Mismatch: pos[0] += 1000
        return UNDEF
    u.contract('cereal::save', vsave); u.contract('cereal::load', vload)
class SPtr(Ptr):
    __slots__ = ('sz',)
class Mismatch(Exception): pass
def all_read(u, st=None):
    u.post('everything written is read', B(u.pos[0] == len(u.tape)))
    for it in u.tape:
        if it.cond is not TRUE and it.read is not None: u.post('everything written is read', it.read, hyps=[it.cond], st=st)
def same(u, what, s, v, st, own=True):
    """loaded value v equals the snapshot s"""
    if s[0] == 'view':
        if not isinstance(v, View): u.post('%s is restored' % what, FALSE); return
        u.post('%s has the same extent' % what, and_(*[eq(a, b) for a, b in zip(v.ext, s[1])]), st=st)
        ix = [u.int('i%d' % k) for k in range(len(s[1]))]; e = s[2]
        for i in ix: e = lapp(e, i)
        u.post('%s has the same elements' % what, eq(u.ex.load(st, v.at(ix)), e), hyps=[lt(i, n) for i, n in zip(ix, s[1])], st=st)
        u.post('%s has memory of its own' % what, B(v.buf != s[3].buf))
    elif s[0] == 'rec':
        keep = RESTORES.get(strip_targs(s[1]))
        for k, x in s[2].items():
            if keep is None or k in keep: same(u, what + '.' + k, x, v.f[k], st)
    elif isinstance(s[1], T): u.post('%s is restored' % what, eq(v, s[1]) if isinstance(v, T) else FALSE, st=st)
    else: u.post('%s is restored' % what, B(v == s[1] or repr(v) == repr(s[1])), st=st)
def pick(u, sq, cls, body=True): return u.fn(sq, pred=lambda f: 'body' in f and cls in u.cls(f))
def arch(u, f): return u.ex.newroot(u.st, Opq('archive'), 'ar')
def by(u, sq, *sig): return u.fn(sq, pred=lambda f: 'body' in f and all(a in b for a, b in zip(sig, u.sig(f))))
# ---- classes with their own save / load or serialize
CLASSES = [('MapOptions', 'MapOptions', 'MapOptions', 'serialize', None), ('OrthogonalPolynomial', 'ProbabilistHermiteMixer', 'OrthogonalPolynomial', 'serialize', None), ('HermiteFunction', 'HermiteFunction', 'HermiteFunction', 'serialize', None), ('LinearizedBasis', 'LinearizedBasis', 'LinearizedBasis', 'serialize', None),
    ('FixedMultiIndexSet', 'FixedMultiIndexSet', 'FixedMultiIndexSet', 'save', None), ('QuadratureBase', 'QuadratureBase', 'QuadratureBase', 'save', None), ('RecursiveQuadratureBase', '', 'RecursiveQuadratureBase', 'save', None), ('ClenshawCurtisQuadrature', '', 'ClenshawCurtisQuadrature', 'save', None),
    ('AdaptiveSimpson', '', 'AdaptiveSimpson', 'save', None), ('AdaptiveClenshawCurtis', '', 'AdaptiveClenshawCurtis', 'save', None), ('MultivariateExpansionWorker', 'ProbabilistHermiteMixer', 'MultivariateExpansionWorker', 'save', None), ('MultivariateExpansionWorker (linearised basis)', 'LinearizedBasis', 'MultivariateExpansionWorker', 'save', None)]
for nm, sub_, cl, kind, _x in CLASSES:
    @unit(P, name=nm, targets=(N + cl + '::' + kind, N + cl + '::' + ('load' if kind == 'save' else kind)))
    def _(u, nm=nm, sub_=sub_, cl=cl, kind=kind):
        out = 'Output'; arf = lambda s: lambda f: 'body' in f and sub_ in u.cls(f) and s in u.sig(f)[0]
        fs = u.fn(N + cl + '::' + kind, pred=arf('Output')); fl = u.fn(N + cl + '::' + ('load' if kind == 'save' else kind), pred=arf('Input'))
        archive(u); a, b = u.obj(fs, 'a'), u.obj(fl, 'b')
        if cl == 'MultivariateExpansionWorker':
            F = u.fields(a); u.setf(a, maxDegrees_=F['multiSet_'].f['maxDegrees'])                     # class invariant, established by its constructors
        s0 = snap(u.ex, u.st, u.ex.load(u.st, a)); o = u.call(fs, a, [arch(u, fs)]); u.nothrow(o)
        o = u.call(fl, b, [arch(u, fl)]); u.nothrow(o); all_read(u)
        same(u, cl, s0, u.ex.load(u.st, b), u.st)
@unit(P, name='QuadratureBase (own workspace)', targets=N + 'QuadratureBase::load')
def _(u):
    u.ex.decide_ms = 500; fs = u.fn(N + 'QuadratureBase::save'); fl = u.fn(N + 'QuadratureBase::load'); archive(u); a, b = u.obj(fs, 'a'), u.obj(fl, 'b'); F = u.fields(a); w = F['internalWork_']; u.assume(and_(ge(w.ext[0], F['workspaceSize_']), gt(w.ext[0], I(0))))
    o = u.call(fs, a, [arch(u, fs)]); u.nothrow(o); o = u.call(fl, b, [arch(u, fl)]); u.nothrow(o); G = u.fields(b); p = G['workspace_']; u.post('a rule with its own workspace has one again', B(isinstance(p, Ptr) and p.base == G['internalWork_'].buf and p.off is I(0)))
# ---- Kokkos views
VT = dict(real=('View<double *,', 'R'), unsigned=('View<unsigned int *,', 'I'))
for nm, (ty, srt) in VT.items():
    for empty in (0, 1):
        @unit(P, name='views of %s%s' % (nm, (' (empty)' if empty else '')), targets=('cereal::save', 'cereal::load'))
        def _(u, ty=ty, srt=srt, empty=empty):
            u.ex.decide_ms = 300; archive(u); del u.ex.contracts['cereal::save'], u.ex.contracts['cereal::load']
            fs, fl = by(u, 'cereal::save', 'Output', ty), by(u, 'cereal::load', 'Input', ty)
            n = I(0) if empty else u.int('n', 1); u.assume(lt(n, I(2**32))); a = u.view('a', n, sort=srt); b = u.ref(u.view('b', u.int('m'), sort=srt)); s0 = snap(u.ex, u.st, a)
            o = u.call(fs, None, [arch(u, fs), a]); u.nothrow(o); o = u.call(fl, None, [arch(u, fl), b]); u.nothrow(o); all_read(u); v = u.load(b); same(u, 'the view', s0, v, u.st)
            u.post('memory is allocated for it', B(u.ex.allocd.get(v.buf.root) is True))
for lay in ('Left', 'Right'):
    for kind in ('contiguous', 'block of a larger matrix', 'empty'):
        @unit(P, name='matrices, layout %s, %s' % (lay, kind), targets=('cereal::save', 'cereal::load'))
        def _(u, lay=lay, kind=kind):
            u.ex.decide_ms = 300; archive(u); del u.ex.contracts['cereal::save'], u.ex.contracts['cereal::load']
            fs, fl = by(u, 'cereal::save', 'Output', 'Layout' + lay), by(u, 'cereal::load', 'Input', 'Layout' + lay)
            m, n = u.int('m', 1), (I(0) if kind == 'empty' else u.int('n', 1)); u.assume(and_(lt(m, I(2**15)), lt(n, I(2**15)))); a = u.view('a', m, n); b = u.ref(u.view('b', u.int('m2'), u.int('n2'))); s0 = snap(u.ex, u.st, a); av = a
            def data(ex, st, c):
                w = ex.val(st, c.obj); gap = kind.startswith('block') and w.buf == av.buf; ex.oblige('layout', st, B(not gap), c.loc, 'elements are taken from contiguous memory'); return Opq('matdata', w)
            u.contract('Kokkos::View::data', data); u.contract('Kokkos::View::span_is_contiguous', lambda ex, st, c: B(not (kind.startswith('block') and ex.val(st, c.obj).buf == av.buf)))
            o = u.call(fs, None, [arch(u, fs), a]); u.nothrow(o); o = u.call(fl, None, [arch(u, fl), b]); u.nothrow(o); all_read(u); same(u, 'the matrix', s0, u.load(b), u.st)
# ---- maps
for cl in ('ConditionalMapBase', 'ParameterizedFunctionBase'):
    @unit(P, name=cl + '_save', targets=N + cl + '::save')
    def _(u, cl=cl):
        f = u.fn(N + cl + '::save'); archive(u); a = u.obj(f); o = u.call(f, a, [arch(u, f)]); u.nothrow(o); u.post('the base class writes nothing', B(len(u.tape) == 0))
def constructs(u):
    calls = []
    def h(ex, st, c): calls.append(([snap(ex, st, ex.val(st, a)) for a in c.args], and_(*st.pc), st.clone(), [ex.val(st, a) for a in c.args])); return UNDEF
    u.contract('cereal::construct::operator()', h); return calls
for sub_, nm in (('ClenshawCurtisQuadrature', ''), ('AdaptiveSimpson', ' (linearised basis, adaptive Simpson)')):
    for setc in (1, 0):
        @unit(P, name='MonotoneComponent, coefficients %sset%s' % ('' if setc else 'un', nm), targets=(N + 'MonotoneComponent::save', N + 'MonotoneComponent::load_and_construct'))
        def _(u, sub_=sub_, setc=setc):
            u.ex.decide_ms = 500; fs, fl = pick(u, N + 'MonotoneComponent::save', sub_), pick(u, N + 'MonotoneComponent::load_and_construct', sub_); archive(u); calls = constructs(u); a = u.obj(fs, 'a'); F = u.fields(a)
            nc = sym('numCoeffs', 'I'); u.assume(ge(nc, I(1))); u.contract(N + 'MultivariateExpansionWorker::NumCoeffs', lambda ex, st, c: nc)
            co = F['savedCoeffs']; u.assume(eq(co.ext[0], nc if setc else I(0))); s = {k: snap(u.ex, u.st, F[k]) for k in ('expansion_', 'quad_', 'useContDeriv_', 'nugget_', 'savedCoeffs')}
            o = u.call(fs, a, [arch(u, fs)]); u.nothrow(o); o = u.call(fl, None, [arch(u, fl), u.ex.newroot(u.st, Opq('construct'), 'con')]); u.nothrow(o); all_read(u)
            u.post('one component is constructed', B(len(calls) == 1))
            for args, pc, st, vals in calls[:1]:
                u.post('coefficients that were set are restored and unset ones stay unset', B(len(args) == (5 if setc else 4)), st=st)
                for k, v in zip(('expansion_', 'quad_', 'useContDeriv_', 'nugget_', 'savedCoeffs'), vals): same(u, k, s[k], v, st)
for setc in (1, 0):
    @unit(P, name='TriangularMap, coefficients %sset' % ('' if setc else 'un'), targets=(N + 'TriangularMap::save', N + 'TriangularMap::load_and_construct'))
    def _(u, setc=setc):
        u.ex.decide_ms = 500; fs, fl = u.fn(N + 'TriangularMap::save'), u.fn(N + 'TriangularMap::load_and_construct'); archive(u); calls = constructs(u); a = u.obj(fs, 'a'); F = u.fields(a); co = F['savedCoeffs']
        u.assume(gt(co.ext[0], I(0)) if setc else eq(co.ext[0], I(0))); s0 = snap(u.ex, u.st, F['comps_'])
        o = u.call(fs, a, [arch(u, fs)]); u.nothrow(o); o = u.call(fl, None, [arch(u, fl), u.ex.newroot(u.st, Opq('construct'), 'con')]); u.nothrow(o); all_read(u); u.post('one map is constructed', B(len(calls) == 1))
        for args, pc, st, vals in calls[:1]:
            same(u, 'the list of components', s0, vals[0], st); u.post('the map has coefficients of its own exactly when it had', eq(vals[1], B(setc)) if isinstance(vals[1], T) else FALSE, st=st)
@unit(P, name='ParameterizedFunctionBase_Save and Load', targets=(N + 'ParameterizedFunctionBase::Save', N + 'ParameterizedFunctionBase::Load'))
def _(u):
    fs, fl = u.fn(N + 'ParameterizedFunctionBase::Save'), u.fn(N + 'ParameterizedFunctionBase::Load'); a = u.obj(fs, 'a'); log = []
    import libmodel
    for nm in ('Output', 'Input'): libmodel.LIBCLS['cereal::Binary%sArchive' % nm] = dict(ctor=lambda ex, st, c: Opq('archive', ex.val(st, c.args[0])))
    u.contract('std::enable_shared_from_this::shared_from_this', lambda ex, st, c: ObjPtr(c.obj))
    def w(ex, st, c): log.append((ex.val(st, c.obj), [ex.val(st, x) for x in c.args])); return UNDEF
    loaded = ObjPtr(u.obj(fs, 'loaded'))
    def r(ex, st, c): log.append((ex.val(st, c.obj), len(c.args))); ex.store(st, c.args[0], loaded); return UNDEF
    u.contract('cereal::OutputArchive::operator()', w); u.contract('cereal::InputArchive::operator()', r)
    so, si = u.ref(Opq('stream', 'out')), u.ref(Opq('stream', 'in')); o = u.call(fs, a, [so]); u.nothrow(o); o = u.call(fl, None, [si]); u.nothrow(o)
    u.post('Save writes the object itself, once, to the given stream', B(len(log) == 2 and log[0][1] == [ObjPtr(a)] and isinstance(log[0][0], Opq) and log[0][0].data is u.load(so)))
    u.post('Load returns what is read from the given stream', B(o.ret == loaded and log[1][1] == 1 and log[1][0].data is u.load(si)))
@unit(P, name='MapOptions_operator==', targets=N + 'MapOptions::operator==')
def _(u):
    f = u.fn(N + 'MapOptions::operator=='); a, b = u.obj(f, 'a'), u.obj(f, 'b'); F, G = u.fields(a), u.fields(b); o = u.call(f, a, [u.load(b)]); u.nothrow(o)
    u.post('options compare equal exactly when every field is equal', eq(o.ret, and_(*[eq(F[k], G[k]) for k in F])))
for k in (4, 5):
    @unit(P, name='MonotoneComponent_constructor (%s coefficients)' % ('without', 'with')[k - 4], targets=N + 'MonotoneComponent::MonotoneComponent')
    def _(u, k=k):
        f = u.fn(N + 'MonotoneComponent::MonotoneComponent', pred=lambda f: 'body' in f and len(f['ps']) == k); this = u.obj(f); ld = u.fn(N + 'MonotoneComponent::load_and_construct', pred=lambda g: 'body' in g and g['cls'] == f['cls'])
        src = u.obj(f, 'src'); F = u.fields(src); nc, dim = sym('numCoeffs', 'I'), sym('dim', 'I'); u.assume(and_(ge(nc, I(1)), ge(dim, I(1))))
        for m, v in (('NumCoeffs', nc), ('InputSize', dim)): u.contract(N + 'MultivariateExpansionWorker::' + m, lambda ex, st, c, v=v: v)
        co = u.view('coeffs', nc); s = {x: snap(u.ex, u.st, F[x]) for x in ('expansion_', 'quad_', 'useContDeriv_', 'nugget_')}; s0 = snap(u.ex, u.st, co); cd, ng = F['useContDeriv_'], F['nugget_']
        o = u.call(f, this, [u.ref(F['expansion_']), u.ref(F['quad_']), cd, ng] + [co] * (k - 4)); u.nothrow(o); G = u.fields(this)
        u.post('dimensions', and_(eq(G['inputDim'], dim), eq(G['outputDim'], I(1)), eq(G['numCoeffs'], nc), eq(G['dim_'], dim), eq(G['nugget_'], ng), eq(G['useContDeriv_'], cd)))
        for x in ('expansion_', 'quad_'): u.post('%s is copied' % x, B(repr(G[x]) == repr(F[x])))
        if k == 5: same(u, 'savedCoeffs', s0, G['savedCoeffs'], u.st)
        else: u.post('no coefficients are set', eq(G['savedCoeffs'].ext[0], I(0)))
