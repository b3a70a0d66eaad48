"""Contract units: each unit symbolically executes one function of /repo against its contract and yields obligations."""
import time, traceback, hashlib, os, sys
from terms import *
import terms as TM
from vals import *
from execu import Program, Exec, Frame, Obl, strip_targs, PASS
import smt, loops, libmodel, dense, tactic, calc
from calc import diff, exp_, log_, exp_add, log_mul, log_exp, exp_log, log_mono, tanh_def
from loops import Hint

UNITS = []
class UnitDef:
    def __init__(self, prop, name, fn, targets, opts):
        self.prop = prop; self.name = name; self.fn = fn; self.targets = targets; self.opts = opts

def unit(prop, name=None, targets=(), **opts):
    def d(f):
        UNITS.append(UnitDef(prop, name or f.__name__, f, (targets,) if isinstance(targets, str) else tuple(targets), opts))
        return f
    return d

class Out:
    """outcome of a call: normal state, returned value, exceptional states"""
    def __init__(self, st, ret, throws): self.st = st; self.ret = ret; self.throws = throws

class MissingTarget(Exception): pass

class Ctx:
    def __init__(self, prog, name, **opts):
        self.prog = prog; self.name = name
        self.ex = Exec(prog, name)
        self.st = State()
        self.posts = 0
        self.targets = []
        self.lemma_extra = []
        self.timeout = opts.get('timeout', 10000)
        self.kinds = opts.get('kinds')         # restrict safety obligation kinds
        self.pre_n = 0
    # ---- selection of functions
    def fn(self, sq, pred=None, nargs=None):
        fs = self.prog.find(sq)
        if nargs is not None: fs = [f for f in fs if len(f['ps']) == nargs]
        if pred is not None: fs = [f for f in fs if pred(f)]
        if not fs: raise MissingTarget('function %s not found in the extracted program' % sq)
        f = fs[0]
        self.targets.append((f['q'], f.get('loc', '')))
        return f
    def cls(self, f): return self.prog.types[f['cls']]['s']
    def sig(self, f): return [self.prog.types[p['t']].get('s') or self.prog.unref(p['t']).get('s') or self.prog.unref(p['t'])['k'] for p in f['ps']]
    # ---- symbolic values
    def assume(self, c): self.ex.hyps.append(c)
    def int(self, name, lo=0):
        t = sym(name, 'I')
        if lo is not None: self.assume(ge(t, I(lo)))
        return t
    def real(self, name): return sym(name, 'R')
    def bool(self, name): return sym(name, 'B')
    def obj(self, f_or_tid, name='this'):
        """arbitrary object of the class of method f (or type id)"""
        tid = f_or_tid['cls'] if isinstance(f_or_tid, dict) else f_or_tid
        v = self.ex.mksym(self.st, tid, name)
        return self.ex.newroot(self.st, v, 'o_' + name)
    def fields(self, ref): return self.ex.load(self.st, ref).f
    def setf(self, ref, **kw):
        v = self.ex.load(self.st, ref)
        for k, x in kw.items(): v = v.with_(k, x)
        self.ex.store(self.st, ref, v)
    def view(self, name, *ext, sort='R'):
        vs = [fresh('w', 'I') for _ in ext]
        t = app(name, sort, *vs)
        for v in reversed(vs): t = lam(v, t)
        root = self.ex.newroot(self.st, t, 'view_' + name)
        if len(ext) == 1: self.st.ghost[('ext', root.root)] = ext[0]
        return View(root, [('a', I(0))] * len(ext), ext)
    def layout(self, view, lay):
        """the view is a freshly allocated, contiguous matrix ('L' column-major, 'R' row-major)"""
        self.ex.lay[view.buf.root] = lay; self.ex.bufext[view.buf.root] = tuple(view.ext)
        return view
    def array(self, name, sort='R', ext=None):
        root = self.ex.newroot(self.st, fun(name, 'I', sort), 'arr_' + name)
        if ext is not None: self.st.ghost[('ext', root.root)] = ext
        return Ptr(root, I(0))
    def vec(self, name, n, sort='I'):
        return Vec(n, fun(name, 'I', sort))
    def ref(self, v, tag='a'): return self.ex.newroot(self.st, v, tag)
    def at(self, view, *idx, st=None):
        """element of a view / array in a state"""
        st = st or self.st
        if isinstance(view, View): return self.ex.load(st, view.at(list(idx)))
        if isinstance(view, Ptr): return self.ex.load(st, view.base.sub(('ix', add(view.off, idx[0]))))
        if isinstance(view, Vec): return unlift(view.e, idx[0])
        raise Exception('at %r' % (view,))
    def load(self, ref, st=None): return self.ex.load(st or self.st, ref)
    # ---- running
    def call(self, f, this, args, st=None):
        st = st or self.st
        if isinstance(f, str): f = self.fn(f)
        a = []
        for p, x in zip(f['ps'], args):
            if self.prog.types[p['t']]['k'] == 'ref' and not isinstance(x, Ref): x = self.ex.newroot(st, x, 'arg')
            a.append(x)
        fr = Frame(f, None, self.prog, 0)
        r = self.ex.invoke(f, this, a, st, fr)
        if isinstance(r, Ref) and self.prog.types[f['ret']]['k'] != 'ref': r = self.ex.load(st, r)
        return Out(st, r, fr.throws)
    def contract(self, sq, h): self.ex.contracts[sq] = h
    def hint(self, name, f, facts, shifts=(-2, -1, 0, 1, 2, 3)): self.ex.hints.append(Hint(name, f, facts, shifts))
    # ---- obligations
    def post(self, name, goal, hyps=(), st=None, extra=()):
        st = st or self.st
        self.posts += 1
        o = Obl('post', name, '', list(self.ex.hyps) + list(st.pc) + list(hyps), goal, self.name)
        o.lemmas = tuple(extra)
        self.ex.obls.append(o)
    def lemma(self, name, goal, hyps=()):
        """a lemma over specification terms: proved as an obligation, then available as a hypothesis"""
        o = Obl('lemma', name, '', list(self.ex.hyps) + list(hyps), goal, self.name)
        self.ex.obls.append(o)
        self.assume(goal if not hyps else imp(and_(*hyps), goal))
    def induct(self, name, n, P, lo=0, hyps=(), facts=()):
        """lemma: for all n>=lo P(n), by induction (two obligations)"""
        k = fresh('n', 'I')
        self.ex.obls.append(Obl('lemma', name + ' (base)', '', list(self.ex.hyps) + list(hyps) + [f(I(lo)) for f in facts], P(I(lo)), self.name))
        self.ex.obls.append(Obl('lemma', name + ' (step)', '', list(self.ex.hyps) + list(hyps) + [ge(k, I(lo)), P(k)] + [f(k) for f in facts] + [f(add(k, I(1))) for f in facts], P(add(k, I(1))), self.name))
        v = fresh('n', 'I')
        Q = lambda v: imp(and_(*hyps), P(v)) if hyps else P(v)
        self.assume(all_(v, I(lo), None, Q(v)))
        return lambda t: self.instance(name, Q(t), ge(t, I(lo)))
    def instance(self, name, goal, rng):
        """an instance of a lemma proved for all values of a range"""
        if rng is not TRUE: self.ex.obls.append(Obl('lemma', name + ' (instance within range)', '', list(self.ex.hyps), rng, self.name))
        self.assume(goal)
    def lemma_all(self, name, v, lo, hi, goal, hyps=(), facts=()):
        """lemma for all v in [lo,hi): proved for an arbitrary v, then available generalised"""
        r = [ge(v, lo), lt(v, hi)]
        self.ex.obls.append(Obl('lemma', name, '', list(self.ex.hyps) + r + list(hyps) + list(facts), goal, self.name))
        g = goal if not hyps else imp(and_(*hyps), goal)
        self.assume(all_(v, lo, hi, g))
        return lambda t: self.instance(name, subst(g, {v: t}), and_(ge(t, lo), lt(t, hi)))
    def prefix_sums(self, f, K, what):
        """facts about the prefix sums of a non-negative sequence, proved by induction; returns the prefix sum function"""
        q = fresh('q', 'I'); S = lambda k: sum_(q, I(0), k, f(q))
        k, m = fresh('k', 'I'), fresh('m', 'I')
        rng = [ge(k, I(0)), le(k, m), lt(m, K)]
        self.ex.obls.append(Obl('lemma', 'prefix sums of %s are monotone (step)' % what, '', list(self.ex.hyps) + rng + [le(S(k), S(m))], le(S(k), S(add(m, I(1)))), self.name))
        self.ex.obls.append(Obl('lemma', 'prefix sums of %s are monotone (base)' % what, '', list(self.ex.hyps), le(S(k), S(k)), self.name))
        mono = lambda a, b: imp(and_(ge(a, I(0)), le(a, b), le(b, K)), le(S(a), S(b)))
        S.mono = mono
        self.lemma_all('prefix sums of %s lie within the total' % what, k, I(0), add(K, I(1)), and_(ge(S(k), I(0)), le(S(k), S(K))), facts=[mono(I(0), k), mono(k, K)])
        self.lemma_all('blocks of %s lie within the total' % what, k, I(0), K, le(add(S(k), f(k)), S(K)), facts=[mono(add(k, I(1)), K)])
        return S
    def nothrow(self, out, name='no exception under the precondition'):
        for ts, loc in out.throws:
            o = Obl('post', name, loc, list(self.ex.hyps) + list(ts.pc), FALSE, self.name)
            self.ex.obls.append(o)
        self.posts += 1
    def throws_iff(self, out, c, name='raises exactly when'):
        """exceptional outcomes happen exactly when c holds (c over the pre-state)"""
        for ts, loc in out.throws:
            self.ex.obls.append(Obl('post', name + ' (raised only if)', loc, list(self.ex.hyps) + list(ts.pc), c, self.name))
        self.posts += 1
        if not out.st.dead():
            self.ex.obls.append(Obl('post', name + ' (not missed)', '', list(self.ex.hyps) + list(out.st.pc), not_(c), self.name))

SAFETY = ('bounds', 'div0', 'assert', 'race', 'termination', 'precondition')

def contexts(prog, ud, known=None):
    """execute the unit; one context per case when branch-dependent handles force a case split"""
    known = known or {}
    u = Ctx(prog, ud.name, **ud.opts)
    SPLIT['known'] = known; SPLIT['hyps'] = u.ex.hyps
    try: ud.fn(u)
    except NeedSplit as e:
        k = repr(e.c)
        if len(known) >= 3 or k in known: raise Unsupported('branch-dependent view (%s)' % k[:200])
        return contexts(prog, ud, dict(known, **{k: True})) + contexts(prog, ud, dict(known, **{k: False}))
    finally: SPLIT['known'] = {}; SPLIT['hyps'] = None
    return [u]

def run_unit(prog, ud, tier='quick', tmul=1.0):
    t0 = time.time()
    if smt.EMATCH[0] != bool(ud.opts.get('ematch')): smt.EMATCH[0] = bool(ud.opts.get('ematch')); smt.ENC.cache.clear()
    res = dict(unit=ud.name, prop=ud.prop, status='', obls=[], targets=[], covered=[], contracts=[], assumed=[], notes=[], err='')
    us = []
    try:
        us = contexts(prog, ud)
    except MissingTarget as e:
        res['status'] = 'missing'; res['err'] = str(e)
    except (Unsupported, TM.Overflow) as e:
        res['status'] = 'unsupported'; res['err'] = '%s: %s' % (type(e).__name__, e)
        res['tb'] = traceback.format_exc()[-1500:]
    except Exception as e:
        res['status'] = 'engine-error'; res['err'] = '%s: %s' % (type(e).__name__, e)
        res['tb'] = traceback.format_exc()[-3000:]
    res['exec_s'] = round(time.time() - t0, 3)
    if res['status']: return res
    res['targets'] = sorted({x for u in us for x in u.targets})
    res['covered'] = sorted({x for u in us for x in u.ex.covered.items()})
    res['contracts'] = sorted({x for u in us for x in u.ex.used_contracts})
    res['assumed'] = sorted({x for u in us for x in u.ex.assumed})
    res['notes'] = [x for u in us for x in u.ex.notes]
    ok = True; live = 0
    budget = ud.opts.get('budget', 240 if tier == 'quick' else 1500)
    for u in us:
        ex = u.ex
        # vacuity: the preconditions must not be contradictory (a case of a split may be)
        v = smt.prove(list(ex.hyps), FALSE, timeout=3000, rounds=1)
        if v.ok: continue
        live += 1
        if u.posts == 0: res['status'] = 'vacuous'; res['err'] = 'no postcondition'; return res
        for n, o in enumerate(ex.obls):
            if u.kinds is not None and o.kind in SAFETY and o.kind not in u.kinds: continue
            r = discharge(o, u, tier, max(4.0, budget - (time.time() - t0)), tmul)
            ent = dict(kind=o.kind, name=o.name, loc=o.loc, fn=o.fn, ok=r.ok, backend=r.backend, t=round(r.t, 3), status=r.status)
            if not r.ok:
                ok = False
                ent['goal'] = repr(o.goal)[:3000]
                ent['hyps'] = [repr(h)[:400] for h in o.hyps][-30:]
                if r.model is not None: ent['model'] = str(r.model)[:3000]
            res['obls'].append(ent)
    if not live: res['status'] = 'vacuous'; res['err'] = 'preconditions are contradictory'; return res
    res['status'] = 'proved' if ok else 'failed'
    res['time'] = round(time.time() - t0, 3)
    return res

def discharge(o, u, tier, left, tmul=1.0):
    tm = min(int(u.timeout * tmul), int(left * 1000))
    r = tactic.prove(o.hyps, o.goal, timeout=tm, extra=o.lemmas or (), budget=min(left, 60 * tmul), want_model=True)
    return r
