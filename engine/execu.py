"""Symbolic executor / verification-condition generator over the extracted (type-checked) C++ bodies."""
import json, re, time
from terms import *
import terms as TM
from vals import *
import smt

def strip_targs(q):
    out = []; d = 0; i = 0
    if 'operator<' in q or 'operator>' in q or 'operator-' in q:
        m = re.search(r'operator(<=|>=|<<|>>|<|>|->)', q)
        if m:
            return strip_targs(q[:m.start()]) + q[m.start():m.end()]
    for ch in q:
        if ch == '<': d += 1
        elif ch == '>': d -= 1
        elif d == 0: out.append(ch)
    return ''.join(out)

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']; self.fns = {int(k): v for k, v in d['fns'].items()}
        self.recs = {int(k): v for k, v in d['recs'].items()}
        self.byname = {}
        for i, f in self.fns.items():
            f['id'] = i
            f['sq'] = strip_targs(f['q'])
            self.byname.setdefault(f['sq'], []).append(i)
        self.byuq = {}
        for i, t in enumerate(self.types): t['id'] = i
        self.overriders = {}
        for i, f in self.fns.items():
            for o in f.get('ov', []): self.overriders.setdefault(o, []).append(i)
    def ty(self, t): return self.types[t]
    def unref(self, t):
        ty = self.types[t]
        while ty['k'] == 'ref': ty = self.types[ty['to']]
        return ty
    def find(self, sq, pred=None, body=True):
        r = [self.fns[i] for i in self.byname.get(sq, []) if (not body or 'body' in self.fns[i])]
        if pred: r = [f for f in r if pred(f)]
        return r
    def clsname(self, f): return self.types[f['cls']]['s'] if 'cls' in f else ''

class Obl:
    __slots__ = ('kind', 'name', 'loc', 'hyps', 'goal', 'fn', 'res', 'lemmas')
    def __init__(self, kind, name, loc, hyps, goal, fn):
        self.kind = kind; self.name = name; self.loc = loc; self.hyps = hyps; self.goal = goal; self.fn = fn; self.res = None; self.lemmas = ()

class _Pass: pass
PASS = _Pass()   # returned by a contract handler that leaves the call to the body
class Frame:
    def __init__(self, fn, this, prog, n):
        self.fn = fn; self.this = this; self.prog = prog; self.n = n
        self.env = {}
        self.rets = []; self.throws = []; self.loops = []
class LoopCtx:
    def __init__(self): self.brk = []; self.cont = []

class Call:
    __slots__ = ('f', 'obj', 'args', 'e', 't', 'loc', 'fr')

U32 = 1 << 32

class Exec:
    def __init__(self, prog, name='', wrap=True):
        self.prog = prog; self.name = name
        self.obls = []; self.dry = 0
        self.hyps = []          # global hypotheses (symbol ranges, preconditions)
        self.nroot = 0; self.nframe = 0
        self.allocd = {}; self.bufext = {}; self.lay = {}
        self.contracts = {}     # stripped qualified name (or fn id) -> handler
        self.hints = []         # recurrence spec functions
        self.loopks = ()
        self.invs = []          # candidate invariants generators
        self.depth = 0
        self.covered = {}       # functions executed: name -> loc
        self.assumed = set()    # library / trusted models used
        self.used_contracts = set()
        self.plain_forms = False   # counts and selections over earlier iterations are left to the contract's invariants
        self.opaque = set()     # roots whose changes in loops are described by the contract's invariants only
        self.nfacts = 0         # facts assumed about contracts' results and enumerations
        self.enums = []         # enumerations of sets by loops: element k, position, number of elements
        self.qcache = {}; self.decide_ms = 0       # >0: try to decide branch conditions
        self.notes = []
        self.fnstack = []
        self.stop_race = False
        self.unroll = 40
        self.bounds = True
        self.maxloops = 0
        self.readlog = None
        self.lbcache = {}
        self.nneg = set()       # array names / symbols known to be non-negative
        import libmodel
        self.lib = libmodel.LIB
        self.libcls = libmodel.LIBCLS
    # ------------------------------------------------------------ obligations
    def oblige(self, kind, st, goal, loc='', note=''):
        if self.dry or goal is TRUE: 
            if not self.dry: self.obls.append(Obl(kind, note, loc, (), TRUE, self.fnstack[-1] if self.fnstack else self.name))
            return
        if st.dead(): return
        self.obls.append(Obl(kind, note, loc, list(self.hyps) + list(st.pc), goal, self.fnstack[-1] if self.fnstack else self.name))
    def quick(self, st, goal, timeout=300):
        """cheap sound entailment check used to simplify terms"""
        if goal is TRUE: return True
        if goal is FALSE: 
            return False
        if goal in st.pc: return True
        g2 = self.csimp(goal, st)
        if g2 is TRUE: return True
        if g2 is FALSE: return False
        key = (st.pc, goal, len(self.hyps))
        r = self.qcache.get(key)
        if r is None:
            hy = [h for h in self.hyps + list(st.pc)]
            r = smt.prove(hy, goal, timeout=timeout, rounds=1, cands=(), maxpairs=20).ok
            self.qcache[key] = r
        return r
    # ------------------------------------------------------------ roots
    def newroot(self, st, v, tag='t'):
        self.nroot += 1
        r = '%s%d' % (tag, self.nroot)
        st.store[r] = v
        return Ref(r)
    def load(self, st, r, loc=''):
        if not isinstance(r, Ref): return r
        if r.root not in st.store: raise Unsupported('dangling root %s' % (r.root,))
        v = rd(st.store[r.root], r.steps)
        if self.readlog is not None: self.readlog.append(r)
        return v
    def store(self, st, r, v):
        if r.root not in st.store: raise Unsupported('dangling root %s' % (r.root,))
        st.store[r.root] = wr(st.store[r.root], r.steps, v)
    # ------------------------------------------------------------ symbolic inputs
    def sort_of(self, ty):
        k = ty['k']
        if k in ('int', 'enum'): return 'I'
        if k == 'real': return 'R'
        if k == 'bool': return 'B'
        return None
    def int_range(self, t, ty):
        out = []
        if ty['k'] == 'int':
            if not ty['sg']:
                out.append(ge(t, I(0)))
        elif ty['k'] == 'enum': out.append(ge(t, I(0)))
        return out
    def leafsym(self, name, s, idx):
        return app(name, s, *idx) if idx else sym(name, s)
    def mksym(self, st, tid, name, idx=(), prog=None):
        """arbitrary value of a C++ type; range facts are appended to self.hyps"""
        prog = prog or self.prog
        ty = prog.unref(tid)
        s = self.sort_of(ty)
        if s:
            t = self.leafsym(name, s, idx)
            if ty['k'] in ('int', 'enum') and not ty.get('sg'): self.nneg.add(name if idx else t)
            for h in self.int_range(t, ty):
                for v in idx: h = forall(v, h)
                self.hyps.append(h)
            return t
        if ty['k'] == 'rec':
            tn = ty['tn']
            if tn in self.libcls and 'mksym' in self.libcls[tn]:
                return self.libcls[tn]['mksym'](self, st, ty, name, idx, prog)
            if ty['id'] in prog.recs or self.recinfo(prog, ty):
                r = self.recinfo(prog, ty)
                f = {}
                for b in r['bs']:
                    bv_ = self.mksym(st, b, name, idx, prog)
                    if isinstance(bv_, Rec): f.update(bv_.f)
                for fd in r['fs']:
                    f[fd['n']] = self.mksym(st, fd['t'], name + '.' + fd['n'], idx, prog)
                return Rec(ty['s'], f)
            return Opq(tn, name)
        if ty['k'] == 'ptr':
            return Opq('ptr', name)
        return Opq(ty.get('s', ty['k']), name)
    def recinfo(self, prog, ty):
        if ty['id'] in prog.recs: return prog.recs[ty['id']]
        # const-qualified variants share the record
        for i, r in prog.recs.items():
            if prog.types[r['t']].get('s') == ty.get('s'): 
                return r
        return None
    # ------------------------------------------------------------ helpers on types
    def isref(self, tid, prog): return prog.types[tid]['k'] == 'ref'
    def default_value(self, st, tid, prog, fr=None, zero=False):
        ty = prog.unref(tid)
        k = ty['k']
        if k == 'int' or k == 'enum': return I(0) if zero else fresh('undef', 'I')
        if k == 'real': return R(0) if zero else fresh('undef', 'R')
        if k == 'bool': return FALSE if zero else fresh('undef', 'B')
        if k == 'ptr': return Null() if zero else UNDEF
        if k == 'arr':
            s = self.sort_of(prog.types[ty['to']])
            if s:
                w = fresh('w', 'I')
                if zero: return Vec(I(ty['n']), lam(w, num(0, s) if s != 'B' else FALSE))
                return Vec(I(ty['n']), fun('undef%d' % fresh('u', 'I').id, 'I', s))
            return Vec(I(ty['n']), None)
        if k == 'rec':
            tn = ty['tn']
            if tn in self.libcls and 'default' in self.libcls[tn]:
                return self.libcls[tn]['default'](self, st, ty, prog)
            r = self.recinfo(prog, ty)
            if r:
                f = {}
                for b in r['bs']:
                    v = self.default_value(st, b, prog, fr, zero)
                    if isinstance(v, Rec): f.update(v.f)
                for fd in r['fs']:
                    f[fd['n']] = self.default_value(st, fd['t'], prog, fr, zero)
                return Rec(ty['s'], f)
            return Opq(tn)
        return UNDEF
    # ------------------------------------------------------------ expression evaluation
    def islv(self, e, fr):
        k = e['k']
        if k == 'var': return True
        if k == 'mem': return True
        if k in ('idx', 'asg', 'cas', 'this'): return k != 'this'
        if k == 'un': return e['op'] in ('*',) or (e['op'] in ('++', '--') and not e['post'])
        if k in ('call', 'mcall', 'opcall'): return bool(e.get('lv')) or fr.prog.types[e['t']].get('tn') == 'std::_Bit_reference'
        if k == 'cast': return e['ck'] in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived') and self.islv(e['e'], fr)
        if k == 'cond': return self.islv(e['a'], fr) and self.islv(e['b'], fr)
        if k == 'bin' and e['op'] == ',': return self.islv(e['b'], fr)
        return False
    def lv(self, e, st, fr):
        """lvalue -> Ref"""
        k = e['k']
        if k == 'var':
            if e['id'] in fr.env: 
                r = fr.env[e['id']]
                return r
            if 'q' in e:
                key = 'g:' + e['q']
                if key not in st.store:
                    if 'init' in e and e['init']: st.store[key] = self.ev(e['init'], st, fr)
                    else: st.store[key] = Opq('global', e['q'])
                return Ref(key)
            raise Unsupported('unbound var ' + e['n'])
        if k == 'mem':
            b = e['b']
            if e['ar']:
                p = self.ev(b, st, fr)
                r = self.deref(p, st, e)
            elif self.islv(b, fr): r = self.lv(b, st, fr)
            else: r = self.newroot(st, self.ev(b, st, fr))
            r = r.sub(e['n'])
            if fr.prog.unref(e['t']).get('tn') == 'Kokkos::View':        # a member of reference type
                try: x = self.load(st, r)
                except (Unsupported, KeyError): x = None
                if isinstance(x, ObjPtr): return x.ref
            return r
        if k == 'un' and e['op'] == '*':
            return self.deref(self.ev(e['e'], st, fr), st, e)
        if k == 'un' and e['op'] in ('++', '--'):
            r = self.lv(e['e'], st, fr)
            self.ev(e, st, fr)
            return r
        if k == 'idx':
            b = self.ev(e['b'], st, fr); i = self.ev(e['i'], st, fr)
            return self.index_ptr(b, i, st, e)
        if k in ('asg', 'cas'):
            r = self.lv(e['a'], st, fr)
            self.ev(e, st, fr)
            return r
        if k == 'cast' and e['ck'] in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
            return self.lv(e['e'], st, fr) if self.islv(e['e'], fr) else self.newroot(st, self.ev(e['e'], st, fr))
        if k in ('call', 'mcall', 'opcall'):
            v = self.call(e, st, fr)
            if isinstance(v, Ref): return v
            return self.newroot(st, v)
        if k == 'cond':
            c = self.ev(e['c'], st, fr)
            if c is TRUE: return self.lv(e['a'], st, fr)
            if c is FALSE: return self.lv(e['b'], st, fr)
            a = self.lv(e['a'], st, fr); b = self.lv(e['b'], st, fr)
            if a == b: return a
            return self.newroot(st, vite(c, self.load(st, a), self.load(st, b)))
        if k == 'bin' and e['op'] == ',':
            self.ev(e['a'], st, fr); return self.lv(e['b'], st, fr)
        return self.newroot(st, self.ev(e, st, fr))
    def deref(self, p, st, e=None):
        if isinstance(p, Ptr):
            return p.base.sub(('ix', p.off))
        if isinstance(p, ObjPtr): return p.ref
        if isinstance(p, Ref): return p
        raise Unsupported('deref %r' % (p,))
    def index_ptr(self, b, i, st, e):
        if isinstance(b, Ptr): 
            off = add(b.off, i)
            self.check_ptr(b, off, st, e)
            return b.base.sub(('ix', off))
        raise Unsupported('index of %r' % (b,))
    def check_ptr(self, b, off, st, e):
        """bounds obligation when the extent of the pointed-to block is known"""
        ext = self.extent_of(b.base, st)
        if ext is not None and self.bounds:
            self.oblige('bounds', st, and_(ge(off, I(0)), lt(off, ext)), e.get('l', ''), 'pointer index within its block')
    def extent_of(self, base, st):
        if ('ext', base.root) in st.ghost and not base.steps: return st.ghost[('ext', base.root)]
        if base.steps and base.steps[-1] == '#e':
            v = self.load(st, Ref(base.root, base.steps[:-1]))
            if isinstance(v, Vec): return v.n
        return None
    def truth(self, v):
        if isinstance(v, T):
            if v.s == 'B': return v
            return ne(v, num(0, v.s))
        if isinstance(v, Null): return FALSE
        if isinstance(v, (ObjPtr, Ptr)): return TRUE
        if isinstance(v, Opq) and v.tag == 'merged':
            c, a, b = v.data
            return ite(c, self.truth(a), self.truth(b))
        if isinstance(v, Opq): return app('nonnull', 'B', sym('opq:%s:%s' % (v.tag, v.data), 'I'))
        raise Unsupported('truth of %r' % (v,))
    def bool_ev(self, e, st, fr): return self.truth(self.ev(e, st, fr))
    def ev(self, e, st, fr):
        k = e['k']
        m = getattr(self, 'ev_' + k, None)
        if m is None: raise Unsupported('expr %s' % k)
        return m(e, st, fr)
    def ev_unsup(self, e, st, fr): 
        if e['cls'] == 'SourceLocExpr': return I(0)
        raise Unsupported('%s %s at %s' % (e['c'], e['cls'], e['l']))
    def ev_int(self, e, st, fr):
        ty = fr.prog.types[e['t']]
        if ty['k'] == 'bool': return B(int(e['v']) != 0)
        return I(int(e['v']))
    def ev_flt(self, e, st, fr): return R(Fraction(float(e['v']))) if not _nice(e['v']) else R(_nice(e['v']))
    def ev_bool(self, e, st, fr): return B(e['v'])
    def ev_str(self, e, st, fr): return Opq('str', e['v'])
    def ev_null(self, e, st, fr): return Null()
    def ev_this(self, e, st, fr): return ObjPtr(fr.this)
    def ev_fn(self, e, st, fr): return Clo(e['f'], {}, None, fr.prog)
    def ev_var(self, e, st, fr):
        if e['id'] not in fr.env and 'q' in e and e.get('init') is not None:
            return self.ev(e['init'], st, fr)
        return self.load(st, self.lv(e, st, fr))
    def ev_mem(self, e, st, fr):
        r = self.lv(e, st, fr)
        return self.load(st, r)
    def ev_idx(self, e, st, fr): return self.load(st, self.lv(e, st, fr))
    def ev_zero(self, e, st, fr): return self.default_value(st, e['t'], fr.prog, fr, zero=True)
    def ev_typeid(self, e, st, fr): return Opq('typeid')
    def ev_stdil(self, e, st, fr): return self.ev(e['e'], st, fr)
    def ev_cast(self, e, st, fr):
        ck = e['ck']
        if ck == 'ArrayToPointerDecay':
            if e['e']['k'] == 'str': return Opq('str', e['e']['v'])
            r = self.lv(e['e'], st, fr) if self.islv(e['e'], fr) else self.newroot(st, self.ev(e['e'], st, fr))
            return Ptr(r.sub('#e'), I(0))
        v = self.ev(e['e'], st, fr)
        return self.conv(v, fr.prog.types[e['from']], fr.prog.types[e['t']], st, ck, e)
    def conv(self, v, fr_, to, st, ck='', e=None):
        if not isinstance(v, T):
            if ck in ('PointerToBoolean', 'MemberPointerToBoolean') or to['k'] == 'bool': return self.truth(v)
            return v
        k = to['k']
        if k == 'real': 
            if v.s == 'R': return v
            return toreal(v)
        if k == 'bool': return self.truth(v)
        if k in ('int', 'enum'):
            if v.s == 'B': return ite(v, I(1), I(0))
            if v.s == 'R':
                return self.trunc(v)
            if k == 'enum' or fr_['k'] == 'enum': return v
            if not to['sg']:
                if fr_['k'] == 'bool': return v
                if fr_['k'] == 'int' and (fr_['sg'] or fr_['bits'] > to['bits']):
                    return self.wrapneg(v, to, st)
                return v
            else:
                # to signed: value may be a huge unsigned; narrowing/sign change modelled exactly only for 32/64-bit wrap
                return self.wrapsigned(v, fr_, to, st)
        return v
    def trunc(self, v):
        if isnum(v): 
            x = val(v); return I(int(x))
        if v.op == 'ite': return ite(v.a[0], self.trunc(v.a[1]), self.trunc(v.a[2]))
        d = pdict(v)
        # all atoms are toreal of ints with integer coefs
        if all(c.denominator == 1 and all(x.op == 'app' and x.a[0] == 'toreal' for x, _ in m) for m, c in d.items()):
            return mkpoly({tuple(sorted(((x.a[1], e) for x, e in m), key=lambda p: p[0].id)): c for m, c in d.items()}, 'I')
        return app('trunc', 'I', v)
    def wrapneg(self, v, to, st):
        """conversion of a possibly negative integer to an unsigned type"""
        if isnum(v): return I(int(val(v)) % (1 << to['bits']))
        if self.nonneg(v, st): return v
        return ite(ge(v, I(0)), v, add(v, I(1 << to['bits'])))
    def wrapsigned(self, v, fr_, to, st):
        if isnum(v):
            b = to['bits']; x = int(val(v)) % (1 << b)
            return I(x - (1 << b) if x >= (1 << (b - 1)) else x)
        # only undo an earlier explicit wrap:  ite(x>=0,x,x+2^n) -> x   (assumes |x| fits the signed type)
        if v.op == 'ite':
            for a, b in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                d = sub(b, a)
                if isnum(d) and val(d) > 0 and val(d) % (1 << to['bits']) == 0: return a
            return ite(v.a[0], self.wrapsigned(v.a[1], fr_, to, st), self.wrapsigned(v.a[2], fr_, to, st))
        return v
    def nonneg(self, v, st):
        if isnum(v): return val(v) >= 0
        if self.nn_syn(v, st): return True
        return self.quick(st, ge(v, I(0)))
    def lbs(self, st):
        """constant lower bounds c <= x of terms x, read off the hypotheses and the path condition"""
        key = (st.pc, len(self.hyps))
        r = self.lbcache.get(key)
        if r is None:
            r = {}
            def scan(h):
                if h.op == 'and':
                    for y in h.a: scan(y)
                elif h.op == 'le' and h.a[0].s == 'I':
                    d = pdict(h.a[0]); c = d.get((), 0)
                    ms = [m for m in d if m != ()]
                    if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and d[ms[0]] < 0:
                        x = ms[0][0][0]; v = -(-c // -d[ms[0]]) if d[ms[0]] != -1 else c
                        if x not in r or r[x] < v: r[x] = v
                    elif len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
                        x = ms[0][0][0]; v = (-c) // d[ms[0]]; q = ('ub', x)
                        if q not in r or r[q] > v: r[q] = v
                    elif len(ms) == 2: r.setdefault('diff', []).append(h.a[0])
            for h in self.hyps: scan(h)
            for h in st.pc: scan(h)
            self.lbcache[key] = r
        return r
    def lb(self, v, st):
        """syntactic constant lower bound of an integer term, or None"""
        if isnum(v): return val(v)
        k = self.lbs(st)
        best = k.get(v)
        if v.op == 'poly':
            tot = 0
            for m, c in v.a:
                if m == (): tot += c; continue
                if c < 0:
                    if len(m) == 1 and m[0][1] == 1:
                        u = self.ub(m[0][0], st)
                        if u is not None: tot += c * u; continue
                    tot = None; break
                p = 1; sq_ = True
                for x, e in m:
                    l = self.lb(x, st)
                    if l is None or l < 0:
                        if e % 2 == 0: p = 0; continue
                        p = None; break
                    p *= l ** e
                if p is None: tot = None; break
                tot += c * p
            if tot is None:
                for q in k.get('diff', ()):      # q <= 0, so v = (v + q) - q >= v + q
                    d = add(v, q)
                    if isnum(d): tot = val(d) if tot is None else max(tot, val(d))
            if tot is not None and (best is None or best < tot): best = tot
        elif v.op == 'app':
            if v.a[0] in self.nneg: b = 0
            elif v.a[0] in ('div', 'mod') and (self.lb(v.a[1], st) or -1) >= 0 and (self.lb(v.a[2], st) or -1) >= 0: b = 0
            else: b = None
            if b is not None and (best is None or best < b): best = b
        elif v.op == 'sym':
            if v in self.nneg and (best is None or best < 0): best = 0
        elif v.op == 'ite':
            a, b = self.lb(v.a[1], st), self.lb(v.a[2], st)
            if a is not None and b is not None and (best is None or best < min(a, b)): best = min(a, b)
        elif v.op in ('sum', 'prod'):
            b = self.lb(v.a[2], st)
            if b is not None and b >= 0 and (best is None or best < 0): best = 0
        return best
    def ub(self, v, st):
        b = self.lbs(st).get(('ub', v))
        if b is not None: return b
        if v.op == 'app' and v.a[0] == 'mod' and isnum(v.a[2]) and val(v.a[2]) > 0: return val(v.a[2]) - 1
        if v.op == 'ite':
            a = val(v.a[1]) if isnum(v.a[1]) else None; b = val(v.a[2]) if isnum(v.a[2]) else None
            if a is not None and b is not None: return max(a, b)
        return None
    def nn_syn(self, v, st):
        """syntactic sufficient condition for v >= 0"""
        l = self.lb(v, st)
        if l is not None and l >= 0: return True
        g = ge(v, I(0))
        return g in st.pc or g in self.hyps
    def csimp(self, c, st):
        """decide an integer comparison from syntactic bounds"""
        o = c.op
        if o == 'not':
            r = self.csimp(c.a[0], st)
            return c if r is c.a[0] else not_(r)
        if o == 'le' and c.a[0].s == 'I':
            p = c.a[0]
            l = self.lb(p, st)
            if l is not None and l > 0: return FALSE
            l = self.lb(neg(p), st)
            if l is not None and l >= 0: return TRUE
        elif o == 'eq' and c.a[0].s == 'I':
            p = sub(c.a[0], c.a[1])
            for q in (p, neg(p)):
                l = self.lb(q, st)
                if l is not None and l > 0: return FALSE
        return c
    # -- operators
    def ev_un(self, e, st, fr):
        op = e['op']
        if op == '&':
            x = e['e']
            if x['k'] == 'fn': return self.ev(x, st, fr)
            r = self.lv(x, st, fr)
            if r.steps and isinstance(r.steps[-1], tuple):
                self.lib['#address'](self, st, x, fr)
                return Ptr(Ref(r.root, r.steps[:-1]), r.steps[-1][1]) if not self._vec_step(st, r) else Ptr(Ref(r.root, r.steps[:-1] + ('#e',)), r.steps[-1][1])
            return ObjPtr(r)
        if op == '*': return self.load(st, self.lv(e, st, fr))
        if op in ('++', '--'):
            r = self.lv(e['e'], st, fr)
            v = self.load(st, r)
            if isinstance(v, Ptr): n = Ptr(v.base, add(v.off, I(1 if op == '++' else -1)))
            elif isinstance(v, T): 
                n = add(v, num(1 if op == '++' else -1, v.s))
                ty = fr.prog.types[e['t']]
                if op == '--' and ty['k'] == 'int' and not ty['sg']: n = self.usub(v, I(1), ty, st)
            elif isinstance(v, Opq) and v.tag == 'setit': 
                import libmodel
                n = libmodel.set_iter_next(self, st, v, 1 if op == '++' else -1)
            else: raise Unsupported('++ on %r' % (v,))
            self.store(st, r, n)
            return v if e['post'] else n
        v = self.ev(e['e'], st, fr)
        if op == '-': return neg(v)
        if op == '+': return v
        if op == '!': return not_(self.truth(v))
        if op == '~' and isinstance(v, T) and isnum(v):
            ty = fr.prog.types[e['t']]
            if ty['k'] == 'int': return I(-int(val(v)) - 1 if ty['sg'] else (1 << ty['bits']) - 1 - int(val(v)))
        raise Unsupported('unary ' + op)
    def _vec_step(self, st, r):
        v = self.load(st, Ref(r.root, r.steps[:-1]))
        return isinstance(v, Vec)
    def usub(self, a, b, ty, st):
        d = sub(a, b)
        if isnum(d): return I(int(val(d)) % (1 << ty['bits']))
        if self.nonneg(d, st): return d
        return ite(ge(d, I(0)), d, add(d, I(1 << ty['bits'])))
    def arith(self, op, a, b, ty, st, loc=''):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, T): return Ptr(a.base, add(a.off, b) if op == '+' else sub(a.off, b))
            if isinstance(b, Ptr) and op == '+': return Ptr(b.base, add(b.off, a))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and op == '-': return sub(a.off, b.off)
        if not (isinstance(a, T) and isinstance(b, T)): raise Unsupported('arith %s on %r,%r' % (op, a, b))
        if a.s == 'B': a = ite(a, I(1), I(0))
        if b.s == 'B': b = ite(b, I(1), I(0))
        if a.s != b.s: a, b = toreal(a), toreal(b)
        if a.s == 'R':
            if op == '+': return add(a, b)
            if op == '-': return sub(a, b)
            if op == '*': return mul(a, b)
            if op == '/': return div(a, b)
        else:
            if op == '+': return add(a, b)
            if op == '-':
                if ty['k'] == 'int' and not ty['sg']: return self.usub(a, b, ty, st)
                return sub(a, b)
            if op == '*': return mul(a, b)
            if op == '/':
                self.oblige('div0', st, ne(b, I(0)), loc, 'integer division by zero')
                if ty['sg'] and not (isnum(b) and val(b) > 0 and self.nonneg(a, st)): return self.sdiv(a, b, st)
                return idiv(a, b)
            if op == '%':
                self.oblige('div0', st, ne(b, I(0)), loc, 'integer modulo by zero')
                return imod(a, b)
            if op == '<<' and isnum(b): return mul(a, I(2 ** int(val(b))))
            if op == '<<': return mul(a, app('pow2', 'I', b))
            if op == '>>' and isnum(b): return idiv(a, I(2 ** int(val(b))))
        raise Unsupported('arith ' + op)
    def sdiv(self, a, b, st):
        if self.nonneg(a, st) and self.quick(st, gt(b, I(0))): return idiv(a, b)
        return app('cdiv', 'I', a, b)
    def ev_bin(self, e, st, fr):
        op = e['op']
        if op in ('&&', '||'):
            a = self.bool_ev(e['a'], st, fr)
            if op == '&&' and a is FALSE: return FALSE
            if op == '||' and a is TRUE: return TRUE
            s2 = st.clone(); s2.assume(a if op == '&&' else not_(a))
            b = self.bool_ev(e['b'], s2, fr)
            self.join_side(st, s2, a if op == '&&' else not_(a))
            return and_(a, b) if op == '&&' else or_(a, b)
        if op == ',':
            self.ev(e['a'], st, fr); return self.ev(e['b'], st, fr)
        a = self.ev(e['a'], st, fr); b = self.ev(e['b'], st, fr)
        if op in ('<', '<=', '>', '>=', '==', '!='): return self.csimp(self.cmp(op, a, b), st)
        if op in ('&', '|') and isinstance(a, T):
            if a.s == 'B' and b.s == 'B': return and_(a, b) if op == '&' else or_(a, b)
            return app('bit' + op, 'I', a, b)
        return self.arith(op, a, b, fr.prog.types[e['t']], st, e.get('l', ''))
    def join_side(self, st, s2, c):
        """after evaluating a conditionally executed operand in s2, fold its side effects back into st"""
        ch = [k for k in s2.store if k in st.store and s2.store[k] is not st.store[k]]
        for k in s2.store:
            if k not in st.store: st.store[k] = s2.store[k]
        for k in ch:
            if not same(s2.store[k], st.store[k]): st.store[k] = vite(c, s2.store[k], st.store[k])
        for k in s2.ghost:
            if k not in st.ghost: st.ghost[k] = s2.ghost[k]
        # facts learnt
        extra = s2.pc[len(st.pc):]
        if s2.pc[:len(st.pc)] == st.pc:
            for x in extra:
                if x is not c and not (c.op == 'and' and x in c.a): st.assume(imp(c, x))
    def cmp(self, op, a, b):
        if isinstance(a, Opq) and a.tag == 'setit' or isinstance(b, Opq) and b.tag == 'setit':
            r = eq(a.data[1], b.data[1])
            return r if op == '==' else not_(r)
        if not (isinstance(a, T) and isinstance(b, T)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base: return self.cmp(op, a.off, b.off)
            if op in ('==', '!='):
                if isinstance(b, Null): r = not_(self.truth(a))
                elif isinstance(a, Null): r = not_(self.truth(b))
                elif same(a, b): r = TRUE
                elif isinstance(a, (ObjPtr,)) and isinstance(b, ObjPtr): r = FALSE
                else: r = app('same', 'B', sym(repr(a), 'I'), sym(repr(b), 'I'))
                return r if op == '==' else not_(r)
            raise Unsupported('cmp %r %r' % (a, b))
        if a.s == 'B' and b.s != 'B': a = ite(a, num(1, b.s), num(0, b.s))
        if b.s == 'B' and a.s != 'B': b = ite(b, num(1, a.s), num(0, a.s))
        if a.s != b.s: a, b = toreal(a), toreal(b)
        return {'<': lt, '<=': le, '>': gt, '>=': ge, '==': eq, '!=': ne}[op](a, b)
    def ev_cond(self, e, st, fr):
        c = self.bool_ev(e['c'], st, fr)
        if c is TRUE: return self.ev(e['a'], st, fr)
        if c is FALSE: return self.ev(e['b'], st, fr)
        # assert() expands to  cond ? (void)0 : __assert_fail(...)
        if e['b']['k'] == 'call' and self.fname(e['b'], fr) == '__assert_fail':
            self.oblige('assert', st, c, e['b'].get('l', ''), 'assert')
            st.assume(c)
            return UNDEF
        s1 = st.clone(); s1.assume(c); s2 = st.clone(); s2.assume(not_(c))
        a = self.ev(e['a'], s1, fr); b = self.ev(e['b'], s2, fr)
        if s1.dead() and s2.dead(): st.become(s1); return a
        if s1.dead(): st.become(s2); return b
        if s2.dead(): st.become(s1); return a
        r = self.newroot(s1, a, 'c'); s2.store[r.root] = b
        m = merge([s1, s2])
        if m is None: st.assume(FALSE); return a
        st.become(m)
        return st.store.pop(r.root)
    def fname(self, e, fr):
        if 'f' in e: return fr.prog.fns[e['f']]['sq']
        return ''
    def ev_asg(self, e, st, fr):
        b = self.ev(e['b'], st, fr)
        r = self.lv(e['a'], st, fr)
        self.store(st, r, b)
        return b
    def ev_cas(self, e, st, fr):
        b = self.ev(e['b'], st, fr)
        r = self.lv(e['a'], st, fr)
        a = self.load(st, r)
        lt_ = fr.prog.types[e['t']]; ct = fr.prog.types[e['ct']]
        op = e['op'][:-1]
        if op in ('&', '|') and isinstance(a, T):
            a2 = a if a.s == 'B' else ne(a, I(0)); 
            b2 = b if b.s == 'B' else ne(b, I(0))
            if lt_['k'] == 'bool': v = and_(a2, b2) if op == '&' else or_(a2, b2)
            else: v = app('bit' + op, 'I', a, b)
        else:
            if isinstance(a, T) and ct['k'] == 'real' and a.s == 'I': a = toreal(a)
            v = self.arith(op, a, b, ct, st, e.get('l', ''))
            if isinstance(v, T): v = self.conv(v, ct, lt_, st)
        self.store(st, r, v)
        return v
    def ev_throw(self, e, st, fr):
        fr.throws.append((st.clone(), e.get('l', '')))
        st.assume(FALSE)
        return UNDEF
    def ev_lambda(self, e, st, fr):
        env = {}
        this = fr.this
        for c in e['caps']:
            if c.get('this'):
                if not c['ref']: this = self.newroot(st, self.load(st, fr.this), 'lthis')
            elif 'id' in c:
                if 'init' in c: env[c['id']] = ('val', self.ev(c['init'], st, fr))
                elif c['ref']: env[c['id']] = fr.env[c['id']]
                else: env[c['id']] = ('val', self.load(st, fr.env[c['id']]))
        if 'f' not in e: raise Unsupported('generic lambda')
        return Clo(e['f'], env, this, fr.prog)
    def ev_ilist(self, e, st, fr):
        ty = fr.prog.types[e['t']]
        vs = [self.ev(x, st, fr) for x in e['a']]
        if ty['k'] == 'rec':
            r = self.recinfo(fr.prog, ty)
            if r and r.get('repo'):
                return Rec(ty['s'], {f['n']: v for f, v in zip(r['fs'], vs)})
            if len(vs) == 1: return vs[0]
        if ty['k'] == 'arr':
            return self.list_vec(vs)
        if len(vs) == 1: return vs[0]
        if not vs: return self.default_value(st, e['t'], fr.prog, fr, zero=True)
        raise Unsupported('init list')
    def list_vec(self, vs):
        if not vs: return Vec(I(0), None)
        w = fresh('w', 'I')
        v = vs[-1]
        for i in range(len(vs) - 2, -1, -1): v = vite(eq(w, I(i)), vs[i], v)
        return Vec(I(len(vs)), lift(v, w))
    def ev_new(self, e, st, fr):
        ty = fr.prog.types[e['at']]
        if e['arr']:
            n = self.ev(e['n'], st, fr)
            s = self.sort_of(ty)
            if not s: raise Unsupported('new[] of class')
            r = self.newroot(st, Vec(n, fun('new%d' % fresh('n', 'I').id, 'I', s)), 'h')
            return Ptr(r.sub('#e'), I(0))
        v = self.ev(e['i'], st, fr) if e.get('i') else self.default_value(st, e['at'], fr.prog, fr)
        return ObjPtr(self.newroot(st, v, 'h'))
    def ev_delete(self, e, st, fr): 
        self.ev(e['e'], st, fr); return UNDEF
    # ------------------------------------------------------------ construction
    def ev_ctor(self, e, st, fr):
        f = fr.prog.fns[e['f']]
        ty = fr.prog.unref(e['t'])
        if (f.get('copy') or f.get('move')) and len(e['a']) >= 1 and (f.get('dfl') or not f.get('repo')) :
            x = e['a'][0]
            return self.ev(x, st, fr)
        return self.construct(f, ty, e, st, fr)
    def construct(self, f, ty, e, st, fr, this=None):
        tn = ty.get('tn', '')
        key = f['sq']
        h = self.contracts.get(key) or self.lib.get(key)
        if h is None and tn in self.libcls and 'ctor' in self.libcls[tn]: h = self.libcls[tn]['ctor']
        if h is not None and key in self.contracts: self.used_contracts.add(key)
        if h is not None:
            c = self.mkcall(f, e, st, fr); c.t = ty
            if not f.get('repo'): self.assumed.add(key)
            v = h(self, st, c)
            if this is not None: self.store(st, this, v)
            return v
        if 'body' not in f:
            if f.get('dfl') or f.get('dflt'):
                v = self.default_value(st, ty['id'], fr.prog, fr, zero=bool(e.get('zi')))
                v = self.field_inits(v, ty, st, fr)
                if this is not None: self.store(st, this, v)
                return v
            raise Unsupported('constructor %s' % f['q'])
        args = self.eval_args(f, e['a'], st, fr)
        if this is None:
            this = self.newroot(st, self.default_value(st, ty['id'], fr.prog, fr), 'obj')
        self.invoke(f, this, args, st, fr)
        return self.load(st, this)
    def field_inits(self, v, ty, st, fr):
        r = self.recinfo(fr.prog, ty)
        if r is None or not isinstance(v, Rec): return v
        for fd in r['fs']:
            if 'init' in fd: v = v.with_(fd['n'], self.ev(fd['init'], st, fr))
        return v
    # ------------------------------------------------------------ calls
    def eval_args(self, f, args, st, fr):
        out = []
        ps = f['ps']
        for i, a in enumerate(args):
            if a is None: out.append(UNDEF); continue
            byref = i < len(ps) and fr.prog.types[ps[i]['t']]['k'] == 'ref'
            if byref and self.islv(a, fr): out.append(self.lv(a, st, fr))
            else: out.append(self.ev(a, st, fr))
        return out
    def mkcall(self, f, e, st, fr, obj=None, args=None):
        c = Call(); c.f = f; c.obj = obj; c.e = e; c.loc = e.get('l', '') if e else ''; c.fr = fr
        c.args = args if args is not None else self.eval_args(f, e['a'], st, fr)
        c.t = fr.prog.types[e['t']] if e and 't' in e else None
        return c
    def val(self, st, a):
        return self.load(st, a) if isinstance(a, Ref) else a
    def ev_call(self, e, st, fr):
        v = self.call(e, st, fr)
        return self.load(st, v) if isinstance(v, Ref) else v
    ev_mcall = ev_call
    ev_opcall = ev_call
    def call(self, e, st, fr):
        k = e['k']
        if st.dead(): return UNDEF
        if 'fe' in e:
            fv = self.ev(e['fe'], st, fr)
            args = [self.ev(a, st, fr) for a in e['a']]
            return self.callval(fv, args, st, fr, e)
        f = fr.prog.fns[e['f']]
        obj = None
        args_e = e['a']
        if k == 'mcall':
            o = e['o']
            if e['ar']:
                p = self.ev(o, st, fr)
                obj = self.deref_obj(p)
            elif self.islv(o, fr): obj = self.lv(o, st, fr)
            else: obj = self.ev(o, st, fr)
        elif k == 'opcall' and e['m']:
            o = args_e[0]; args_e = args_e[1:]
            obj = self.lv(o, st, fr) if self.islv(o, fr) else self.ev(o, st, fr)
        args = self.eval_args(f, args_e, st, fr)
        if 'cls' in f and f.get('cassign') or f.get('massign'):
            if (f.get('dfl') or not f.get('repo')) and f['sq'] not in self.lib and f['sq'] not in self.contracts:
                v = self.val(st, args[0])
                if isinstance(obj, Ref):
                    self.store(st, obj, v)
                    return obj
                return v
        return self.dispatch(f, obj, args, e, st, fr, e.get('virt', False))
    def deref_obj(self, p):
        if isinstance(p, ObjPtr): return p.ref
        if isinstance(p, Ptr): return p.base.sub(('ix', p.off))
        return p
    def dispatch(self, f, obj, args, e, st, fr, virt=False):
        key = f['sq']
        h = self.contracts.get(f['id']) or self.contracts.get(key)
        if h is None and virt:
            # interface contract: any overridden method with a contract
            for o in self.all_over(f, fr.prog):
                h = self.contracts.get(o['sq'])
                if h: break
        if h is not None:
            self.used_contracts.add(key)
            c = self.mkcall(f, e, st, fr, obj, args)
            r = h(self, st, c)
            if r is not PASS: return r
        if virt:
            f2 = self.dyn(f, obj, st, fr)
            if f2 is not None: f = f2; key = f['sq']
            h = self.contracts.get(f['id']) or self.contracts.get(key)
            if h is not None:
                self.used_contracts.add(key)
                return h(self, st, self.mkcall(f, e, st, fr, obj, args))
        h = self.lib.get(key)
        if h is None and 'cls' in f and not f.get('repo'):
            tn = fr.prog.types[f['cls']].get('tn')
            if tn in self.libcls:
                h = self.libcls[tn].get(f['n']) or (self.libcls[tn].get('conv') if f.get('conv') else None)
        if h is not None:
            self.assumed.add(key)
            c = self.mkcall(f, e, st, fr, obj, args)
            return h(self, st, c)
        if 'body' in f:
            return self.invoke(f, obj, args, st, fr)
        if f.get('dtor'): return UNDEF
        if f.get('pure') or virt: raise Unsupported('virtual call %s without contract' % f['q'])
        raise Unsupported('call to %s' % f['q'])
    def all_over(self, f, prog):
        out = []
        w = [f]
        while w:
            x = w.pop()
            for o in x.get('ov', []):
                if o in prog.fns: out.append(prog.fns[o]); w.append(prog.fns[o])
        return out
    def dyn(self, f, obj, st, fr):
        """resolve a virtual call from the dynamic type recorded in the receiver value"""
        try: v = self.val(st, obj)
        except Unsupported: return None
        if not isinstance(v, Rec): return None
        t = v.t
        # walk: find overrider in class t (or its bases)
        def search(tname):
            for g in fr.prog.fns.values():
                if 'cls' in g and g['n'] == f['n'] and len(g['ps']) == len(f['ps']) and fr.prog.types[g['cls']].get('s') == tname and (g['id'] == f['id'] or any(o['id'] == f['id'] for o in self.all_over(g, fr.prog))):
                    return g
            for i, r in fr.prog.recs.items():
                if fr.prog.types[r['t']].get('s') == tname:
                    for b in r['bs']:
                        x = search(fr.prog.types[b].get('s'))
                        if x: return x
            return None
        return search(t)
    def invoke(self, f, this, args, st, fr, prog=None):
        """inline the body of f"""
        self.depth += 1
        if self.depth > 60: raise Unsupported('inline depth')
        self.nframe += 1
        prog = prog or fr.prog
        nf = Frame(f, None, prog, self.nframe)
        if this is not None and not isinstance(this, Ref): this = self.newroot(st, this)
        nf.this = this
        self.covered.setdefault(f['q'], f.get('loc', ''))
        self.fnstack.append(f['sq'])
        self.bind(nf, f, args, st)
        if f.get('ctor'):
            self.run_inits(f, nf, st)
        if f.get('body') is not None and not st.dead():
            end = self.exec(f['body'], st, nf)
        else: end = st
        res = self.finish(nf, end, st, f)
        self.fnstack.pop()
        self.depth -= 1
        for t in nf.throws: fr.throws.append(t)
        return res
    def bind(self, nf, f, args, st):
        for i, p in enumerate(f['ps']):
            if i >= len(args): raise Unsupported('missing argument')
            a = args[i]
            if nf.prog.types[p['t']]['k'] == 'ref':
                if not isinstance(a, Ref): a = self.newroot(st, a)
                nf.env[p['id']] = a
            else:
                root = 'p%d.%d' % (p['id'], nf.n)
                st.store[root] = self.val(st, a)
                nf.env[p['id']] = Ref(root)
    def run_inits(self, f, nf, st):
        prog = nf.prog
        done = set()
        cls = prog.types[f['cls']]
        r = self.recinfo(prog, cls)
        for i in f.get('inits', []):
            if st.dead(): return
            if 'mem' in i:
                e = i['e']
                if e['k'] == 'ctor' and prog.unref(e['t'])['k'] == 'rec' and self.recinfo(prog, prog.unref(e['t'])):
                    v = self.ev(e, st, nf)
                else: v = self.ev(e, st, nf)
                fd = [x for x in r['fs'] if x['n'] == i['mem']] if r else []
                if fd and prog.types[fd[0]['t']]['k'] == 'ref':
                    v = ObjPtr(self.lv(e, st, nf)) if self.islv(e, nf) else v
                self.store(st, nf.this.sub(i['mem']), v); done.add(i['mem'])
            elif 'base' in i or 'deleg' in i:
                e = i['e']
                if e['k'] == 'ctor':
                    g = prog.fns[e['f']]
                    bt = prog.unref(e['t'])
                    if self.recinfo(prog, bt) and ('body' in g):
                        a = self.eval_args(g, e['a'], st, nf)
                        self.invoke(g, nf.this, a, st, nf)
                    elif self.recinfo(prog, bt):
                        cur = self.load(st, nf.this)
                        if (g.get('copy') or g.get('move')):
                            src = self.ev(e['a'][0], st, nf)
                            for fn_, x in src.f.items():
                                if fn_ in cur.f and self._in_base(fn_, bt, prog): cur = cur.with_(fn_, x)
                            self.store(st, nf.this, cur)
                        else:
                            cur = self.field_inits(cur, bt, st, nf); self.store(st, nf.this, cur)
                # library bases are ignored
            else: pass
    def _in_base(self, fn_, bt, prog):
        r = self.recinfo(prog, bt)
        if r is None: return False
        return any(x['n'] == fn_ for x in r['fs']) or any(self._in_base(fn_, prog.types[b], prog) for b in r['bs'])
    def finish(self, nf, end, st, f):
        """merge all returns of frame nf into st and return the value"""
        outs = list(nf.rets)
        if end is not None and not end.dead():
            outs.append((end, UNDEF))
        outs = [(s, v) for s, v in outs if not s.dead()]
        if not outs:
            if end is not None and end is not st: st.become(end)
            st.assume(FALSE); return UNDEF
        rr = 'ret%d' % nf.n
        for s, v in outs: s.store[rr] = v
        m = merge([s for s, v in outs])
        st.become(m)
        v = st.store.pop(rr)
        return v
    def callval(self, fv, args, st, fr, e=None):
        """call a closure / function object value"""
        if isinstance(fv, Ref): fv = self.load(st, fv)
        if isinstance(fv, Clo):
            f = fv.prog.fns[fv.fid]
            if not fv.env and fv.this is None and fv.fid and f['sq'] in self.lib:
                c = Call(); c.f = f; c.obj = None; c.args = args; c.e = e; c.loc = ''; c.fr = fr; c.t = None
                return self.lib[f['sq']](self, st, c)
            if 'body' not in f: raise Unsupported('call of %s' % f['q'])
            self.nframe += 1
            nf = Frame(f, fv.this, fv.prog, self.nframe)
            for vid, x in fv.env.items():
                if isinstance(x, Ref): nf.env[vid] = x
                else:
                    root = 'p%d.%d' % (vid, nf.n); st.store[root] = x[1]; nf.env[vid] = Ref(root)
            self.depth += 1
            if self.depth > 60: raise Unsupported('inline depth')
            self.covered.setdefault(f['q'], f.get('loc', ''))
            self.fnstack.append(f['sq'])
            self.bind(nf, f, args, st)
            end = self.exec(f['body'], st, nf)
            res = self.finish(nf, end, st, f)
            self.fnstack.pop()
            self.depth -= 1
            for t in nf.throws: fr.throws.append(t)
            return res
        if isinstance(fv, Rec):
            for g in self.prog.fns.values():
                if g['n'] == 'operator()' and 'cls' in g and self.prog.types[g['cls']].get('s') == fv.t and len(g['ps']) == len(args) and 'body' in g:
                    return self.invoke(g, self.newroot(st, fv), args, st, fr)
        if isinstance(fv, Opq) and 'call' in dir(fv.data): return fv.data.call(self, st, args)
        raise Unsupported('call of value %r' % (fv,))
    # ------------------------------------------------------------ statements
    def exec(self, s, st, fr):
        """returns the fall-through state or None"""
        if s is None: return st
        if st is None or st.dead(): return None
        k = s['k']
        return getattr(self, 'st_' + k)(s, st, fr)
    def st_unsup(self, s, st, fr): raise Unsupported('stmt %s at %s' % (s['cls'], s['l']))
    def st_blk(self, s, st, fr):
        for x in s['b']:
            st = self.exec(x, st, fr)
            if st is None or st.dead(): return None
        return st
    def declare(self, v, st, fr):
        prog = fr.prog
        ty = prog.types[v['t']]
        if ty['k'] == 'ref':
            if 'i' not in v: raise Unsupported('ref decl')
            if self.islv(v['i'], fr): fr.env[v['id']] = self.lv(v['i'], st, fr)
            else: 
                root = 'v%d.%d' % (v['id'], fr.n); st.store[root] = self.ev(v['i'], st, fr); fr.env[v['id']] = Ref(root)
            return
        root = 'v%d.%d' % (v['id'], fr.n)
        if 'i' in v: x = self.ev(v['i'], st, fr)
        else: x = self.default_value(st, v['t'], prog, fr)
        st.store[root] = x
        fr.env[v['id']] = Ref(root)
    def st_decl(self, s, st, fr):
        for v in s['v']:
            if v.get('static') and 'i' in v and v['i'].get('k') not in ('int', 'flt'):
                raise Unsupported('static local')
            self.declare(v, st, fr)
            if st.dead(): return None
        return st
    def st_e(self, s, st, fr):
        e = s['e']
        if e['k'] in ('call', 'mcall', 'opcall'): self.call(e, st, fr)
        elif e['k'] == 'cast' and e['ck'] == 'ToVoid' and e['e']['k'] in ('var',): pass
        else: self.ev(e, st, fr)
        return None if st.dead() else st
    def st_ret(self, s, st, fr):
        v = UNDEF
        if 'e' in s:
            rt = fr.prog.types[fr.fn['ret']]
            if rt['k'] == 'ref':
                v = self.lv(s['e'], st, fr)
            else: v = self.ev(s['e'], st, fr)
        if not st.dead(): fr.rets.append((st, v))
        return None
    def st_if(self, s, st, fr):
        if 'init' in s: st = self.exec(s['init'], st, fr)
        if 'cvd' in s: self.declare(s['cvd'], st, fr)
        c = self.bool_ev(s['c'], st, fr)
        if st.dead(): return None
        if c is TRUE: return self.exec(s['a'], st, fr)
        if c is FALSE: return self.exec(s.get('b'), st, fr) if s.get('b') else st
        if not_(c) in st.pc: return self.exec(s.get('b'), st, fr) if s.get('b') else st
        if c in st.pc: return self.exec(s['a'], st, fr)
        if self.decide_ms:
            key = (st.pc, c, len(self.hyps), 'if')
            if key not in self.qcache:
                hy = self.hyps + list(st.pc)
                self.qcache[key] = 1 if smt.prove(hy, c, timeout=self.decide_ms).ok else -1 if smt.prove(hy, not_(c), timeout=self.decide_ms).ok else 0
            r = self.qcache[key]
            if r > 0: return self.exec(s['a'], st, fr)
            if r < 0: return self.exec(s.get('b'), st, fr) if s.get('b') else st
        s1 = st.clone(); s1.assume(c)
        s2 = st.clone(); s2.assume(not_(c))
        a = self.exec(s['a'], s1, fr)
        b = self.exec(s.get('b'), s2, fr) if s.get('b') else s2
        return merge([a, b])
    def st_break(self, s, st, fr): fr.loops[-1].brk.append(st); return None
    def st_cont(self, s, st, fr): 
        for l in reversed(fr.loops):
            if not getattr(l, 'sw', False): l.cont.append(st); break
        return None
    def st_try(self, s, st, fr):
        mark = len(fr.throws)
        a = self.exec(s['b'], st, fr)
        thr = fr.throws[mark:]; del fr.throws[mark:]
        outs = [a]
        if thr and s['h']:
            for (ts, loc) in thr:
                h = s['h'][0]
                if 'v' in h:
                    root = 'v%d.%d' % (h['v']['id'], fr.n); ts.store[root] = Opq('exc'); fr.env[h['v']['id']] = Ref(root)
                outs.append(self.exec(h['b'], ts, fr))
        return merge(outs)
    def st_switch(self, s, st, fr):
        c = self.ev(s['c'], st, fr)
        # flatten cases
        items = s['b']['b'] if s['b']['k'] == 'blk' else [s['b']]
        segs = []  # (label or None/default, stmts)
        flat = []
        for x in items:
            labels = []
            while x is not None and x['k'] in ('case', 'default'):
                labels.append(self.ev(x['e'], st, fr) if x['k'] == 'case' else None)
                x = x['b']
            flat.append((labels, x))
        allc = [l for ls, _ in flat for l in ls if l is not None]
        lc = LoopCtx(); lc.sw = True
        fr.loops.append(lc)
        fall = None
        hasdef = any(l is None for ls, _ in flat for l in ls)
        for labels, x in flat:
            ent = [fall]
            for l in labels:
                s1 = st.clone()
                s1.assume(eq(c, l) if l is not None else and_(*[ne(c, z) for z in allc]))
                ent.append(s1)
            cur = merge(ent)
            fall = self.exec(x, cur, fr) if cur is not None else None
        fr.loops.pop()
        outs = lc.brk + [fall]
        if not hasdef:
            s1 = st.clone(); s1.assume(and_(*[ne(c, z) for z in allc])); outs.append(s1)
        return merge(outs)
    # loops ------------------------------------------------------
    def st_for(self, s, st, fr):
        if s.get('i') is not None: st = self.exec(s['i'], st, fr)
        if st is None: return None
        cond = (lambda x: self.bool_ev(s['c'], x, fr)) if s.get('c') else (lambda x: TRUE)
        inc = (lambda x: self.ev(s['inc'], x, fr)) if s.get('inc') else (lambda x: None)
        return self.loop(st, fr, cond, inc, lambda x: self.exec(s['b'], x, fr), s.get('l', ''))
    def st_while(self, s, st, fr):
        return self.loop(st, fr, lambda x: self.bool_ev(s['c'], x, fr), lambda x: None, lambda x: self.exec(s['b'], x, fr), s.get('l', ''))
    def st_do(self, s, st, fr):
        # body once, then while
        lc = LoopCtx(); fr.loops.append(lc)
        end = self.exec(s['b'], st, fr)
        fr.loops.pop()
        n = merge([end] + lc.cont)
        if n is None: return merge(lc.brk)
        r = self.loop(n, fr, lambda x: self.bool_ev(s['c'], x, fr), lambda x: None, lambda x: self.exec(s['b'], x, fr), s.get('l', ''))
        return merge([r] + lc.brk)
    def st_rfor(self, s, st, fr):
        import libmodel
        return libmodel.range_for(self, s, st, fr)
    def st_case(self, s, st, fr): return self.exec(s['b'], st, fr)
    st_default = st_case
    def loop(self, st, fr, cond, inc, body, loc):
        import loops
        return loops.run_loop(self, st, fr, cond, inc, body, loc)

def _nice(v):
    """decimal literals are read as exact decimals (reals), e.g. 0.5, 1e-3"""
    f = float(v)
    r = repr(f)
    try: return Fraction(r)
    except Exception: return None
