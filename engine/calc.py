"""Differentiation of specification terms and trusted facts of elementary functions (instances are listed as assumptions)."""
from terms import *
import terms as TM
import smt

# name -> f(args) -> list of partial derivatives (None: argument cannot depend on the variable)
PARTIAL = {}
def partial(name):
    def d(f): PARTIAL[name] = f; return f
    return d
PARTIAL['exp'] = lambda x: [app('exp', 'R', x)]
PARTIAL['log'] = lambda x: [inv(x)]
PARTIAL['tanh'] = lambda x: [sub(R(1), mul(app('tanh', 'R', x), app('tanh', 'R', x)))]
PARTIAL['sqrt'] = lambda x: [inv(mul(R(2), app('sqrt', 'R', x)))]
PARTIAL['inv'] = lambda x: [neg(mul(inv(x), inv(x)))]
PARTIAL['sin'] = lambda x: [app('cos', 'R', x)]
PARTIAL['cos'] = lambda x: [neg(app('sin', 'R', x))]
PARTIAL['erf'] = lambda x: [mul(R(2), inv(app('sqrt', 'R', sym('pi', 'R'))), app('exp', 'R', neg(mul(x, x))))]

def diff(t, x):
    """d t / d x for a real specification term"""
    memo = {}
    def go(t):
        if t is x: return R(1)
        r = memo.get(t)
        if r is not None: return r
        if x not in freevars(t): r = R(0)
        elif t.op == 'poly':
            r = R(0)
            for m, c in t.a:
                for i, (y, e) in enumerate(m):
                    dy = go(y)
                    if dy is R(0): continue
                    fs = [num(c, 'R')]
                    for j, (z, g) in enumerate(m):
                        fs += [z] * (g - 1 if i == j else g)
                    r = add(r, mul(num(e, 'R'), dy, *fs))
        elif t.op == 'app':
            ps = PARTIAL[t.a[0]](*t.a[1:])
            r = R(0)
            for a, p in zip(t.a[1:], ps):
                if x in freevars(a):
                    r = add(r, mul(p, go(a)))
        elif t.op == 'ite': r = ite(t.a[0], go(t.a[1]), go(t.a[2]))
        elif t.op == 'sum':
            from loops import open_binder as _o
            w, parts = open_binder(t)
            r = sum_(w, parts[0], parts[1], go(parts[2]))
        else: raise Exception('diff %s' % t.op)
        memo[t] = r
        return r
    return go(t)

def exp_(x): 
    import libmodel
    return libmodel.mathapp('exp', x)
def log_(x):
    import libmodel
    return libmodel.mathapp('log', x)
def exp_add(a, b): return eq(exp_(add(a, b)), mul(exp_(a), exp_(b)))
def log_mul(a, b): return imp(and_(gt(a, R(0)), gt(b, R(0))), eq(log_(mul(a, b)), add(log_(a), log_(b))))
def log_exp(x): return eq(app('log', 'R', exp_(x)), x)
def exp_log(x): return imp(gt(x, R(0)), eq(exp_(app('log', 'R', x)), x))
def log_mono(a, b): return imp(and_(gt(a, R(0)), gt(b, R(0))), and_(or_(not_(lt(a, b)), lt(log_(a), log_(b))), or_(not_(lt(log_(a), log_(b))), lt(a, b))))
def tanh_def(t): return eq(mul(app('tanh', 'R', t), add(exp_(mul(R(2), t)), R(1))), sub(exp_(mul(R(2), t)), R(1)))
@smt.lem('log')
def _(t): 
    x = t.a[1]
    return [imp(gt(x, R(1)), gt(t, R(0))), imp(and_(gt(x, R(0)), lt(x, R(1))), lt(t, R(0))), imp(and_(gt(x, R(0)), gt(t, R(0))), gt(x, R(1)))]
@smt.lem('tanh')
def _(t): return [lt(t, R(1)), gt(t, R(-1))]
def _expmono(a, b):
    x, y = a.a[1], b.a[1]
    return [or_(not_(lt(x, y)), lt(a, b)), or_(not_(lt(y, x)), lt(b, a)), or_(not_(eq(x, y)), eq(a, b))]
smt.PAIRLEMMAS['exp'] = _expmono
def _logmono(a, b):
    x, y = a.a[1], b.a[1]; p = and_(gt(x, R(0)), gt(y, R(0)))
    return [imp(p, or_(not_(lt(x, y)), lt(a, b))), imp(p, or_(not_(lt(y, x)), lt(b, a)))]
smt.PAIRLEMMAS['log'] = _logmono
smt.PAIRLEMMAS['tanh'] = _expmono
