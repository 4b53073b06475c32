"""Path-exhaustive symbolic interpreter of the LLVM IR of a contract and of all
the real code it calls.  Doubles are terms of the real-number DAG, integers are
Python ints or z3 bit-vectors, pointers are (object, offset)."""
import sys, time, math, re
import numpy as np
from fractions import Fraction
import z3
import ir, dag
from dag import Node, Unsupported

sys.setrecursionlimit(20000)

class PathEnd(Exception): pass          # assume false / infeasible
class Budget(Unsupported): pass

class Obj:
    __slots__ = ('name', 'size', 'cells', 'sym', 'const', 'freed', 'func', 'lazy')
    def __init__(s, name, size):
        s.name = name; s.size = size; s.cells = {}; s.sym = None; s.const = False; s.freed = False; s.func = None; s.lazy = None
    def __repr__(s): return '<%s>' % s.name

class Ptr:
    __slots__ = ('o', 'off')
    def __init__(s, o, off): s.o = o; s.off = off
    def __repr__(s): return 'Ptr(%r,%r)' % (s.o, s.off)
NULL = Ptr(None, 0)

class PInt:          # ptrtoint of a pointer
    __slots__ = ('p',)
    def __init__(s, p): s.p = p

class Lin:
    """c + sum coef*term (64-bit bit-vector terms), kept structurally"""
    __slots__ = ('c', 't')
    def __init__(s, c, t): s.c = c; s.t = t
    def __repr__(s): return 'Lin(%s,%s)' % (s.c, s.t)

def lin_of(x):
    if isinstance(x, Lin): return x
    if isinstance(x, int): return Lin(x, {})
    return Lin(0, {x.get_id(): (x, 1)})

def lin_add(a, b, k=1):
    if isinstance(a, int) and isinstance(b, int): return a + k * b
    a = lin_of(a); b = lin_of(b)
    t = dict(a.t)
    for i, (x, c) in b.t.items():
        c2 = t[i][1] + k * c if i in t else k * c
        if c2: t[i] = (x, c2)
        else: t.pop(i, None)
    c = a.c + k * b.c
    return Lin(c, t) if t else c

def lin_scale(a, k):
    if isinstance(a, int): return a * k
    a = lin_of(a)
    return Lin(a.c * k, {i: (x, c * k) for i, (x, c) in a.t.items()})

def lin_bv(a):
    if isinstance(a, int): return a
    if not isinstance(a, Lin): return a
    r = None
    for x, c in a.t.values():
        y = x if c == 1 else x * z3.BitVecVal(c, 64)
        r = y if r is None else r + y
    if a.c: r = r + z3.BitVecVal(a.c, 64)
    return z3.simplify(r) if False else r

class Cond:
    __slots__ = ('k', 'a', 'b')
    def __init__(s, k, a=None, b=None): s.k = k; s.a = a; s.b = b
    def __repr__(s): return 'Cond(%s,%r,%r)' % (s.k, s.a, s.b)
# k: 'f' a=op b=node ; 'z' a=BoolRef ; 'and','or' ; 'not'

NEG = {'lt': 'ge', 'ge': 'lt', 'le': 'gt', 'gt': 'le', 'eq': 'ne', 'ne': 'eq'}

def cnot(c):
    if isinstance(c, int): return 1 - c
    if c.k == 'f': return Cond('f', NEG[c.a], c.b)
    if c.k == 'z': return Cond('z', z3.Not(c.a))
    if c.k == 'not': return c.a
    if c.k == 'and': return Cond('or', cnot(c.a), cnot(c.b))
    if c.k == 'or': return Cond('and', cnot(c.a), cnot(c.b))

def cand(a, b):
    if isinstance(a, int): return b if a else 0
    if isinstance(b, int): return a if b else 0
    if a.k == 'z' and b.k == 'z': return Cond('z', z3.And(a.a, b.a))
    return Cond('and', a, b)

def cor(a, b):
    if isinstance(a, int): return 1 if a else b
    if isinstance(b, int): return 1 if b else a
    if a.k == 'z' and b.k == 'z': return Cond('z', z3.Or(a.a, b.a))
    return Cond('or', a, b)

def cxor(a, b):
    if isinstance(a, int): return cnot(b) if a else b
    if isinstance(b, int): return cnot(a) if b else a
    return cor(cand(a, cnot(b)), cand(cnot(a), b))

def fcond(op, d):
    """d op 0"""
    if d.op == 'const':
        q = d.a
        return int({'lt': q < 0, 'le': q <= 0, 'gt': q > 0, 'ge': q >= 0, 'eq': q == 0, 'ne': q != 0}[op])
    return Cond('f', op, d)

def is_z(x): return isinstance(x, z3.BitVecRef)

def bv(x, w):
    if isinstance(x, int): return z3.BitVecVal(x, w)
    if isinstance(x, Cond): return z3.If(x.a, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(x, Lin): return lin_bv(x)
    return x

def zsimp(x):
    y = z3.simplify(x)
    if z3.is_bv_value(y): return y.as_long()
    return x

def nonneg(n, depth=6):
    op = n.op
    if op == 'const': return n.a >= 0
    if op in ('sqrt', 'exp', 'abs', 'acos'): return True
    if depth == 0: return False
    if op == 'mul': return n.a is n.b or (nonneg(n.a, depth - 1) and nonneg(n.b, depth - 1))
    if op in ('add',): return nonneg(n.a, depth - 1) and nonneg(n.b, depth - 1)
    if op == 'div': return nonneg(n.a, depth - 1) and nonneg(n.b, depth - 1)
    return False

MATH1 = {'sqrt', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'exp', 'log', 'cbrt', 'floor', 'ceil', 'sinh', 'cosh'}

NOIV = (None, False, None, False)
def ivneg(x): return (None if x[2] is None else -x[2], x[3], None if x[0] is None else -x[0], x[1])
def ivadd(x, y):
    return (None if x[0] is None or y[0] is None else x[0] + y[0], x[1] or y[1],
            None if x[2] is None or y[2] is None else x[2] + y[2], x[3] or y[3])
def ivabs(x):
    lo, ls, hi, hs = x[:4]
    if lo is not None and lo >= 0: return lo, ls, hi, hs
    if hi is not None and hi <= 0: return ivneg(x)
    if lo is None or hi is None: return Fraction(0), False, None, False
    return (Fraction(0), False) + ((hi, hs) if hi >= -lo else (-lo, ls))
def ivmulp(x, y):      # both non-negative
    return (x[0] * y[0], (x[1] or y[1]) , None if x[2] is None or y[2] is None else x[2] * y[2], False)
def ivmul(x, y):
    if None in (x[0], x[2], y[0], y[2]):
        def pos(i): return i[0] is not None and i[0] >= 0
        def npos(i): return i[2] is not None and i[2] <= 0
        if pos(x) and pos(y): return (x[0] * y[0], x[1] and y[1] and x[0] * y[0] == 0, None if x[2] is None or y[2] is None else x[2] * y[2], False)
        if npos(x) and pos(y): return ivneg(ivmul(ivneg(x), y))
        if pos(x) and npos(y): return ivneg(ivmul(x, ivneg(y)))
        if npos(x) and npos(y): return ivmul(ivneg(x), ivneg(y))
        return NOIV
    c = [x[0] * y[0], x[0] * y[2], x[2] * y[0], x[2] * y[2]]
    lo = min(c)
    return lo, lo == 0 and x[0] == 0 and y[0] == 0 and x[1] and y[1], max(c), False
def ivinv(y):          # y > 0
    return (Fraction(0) if y[2] is None else 1 / y[2], True if y[2] is None else y[3],
            None if y[0] == 0 else 1 / y[0], y[1])
def ivaff(iv, a, b):
    lo, ls, hi, hs = iv[:4]
    if a == 1 and b == 0: return lo, ls, hi, hs
    lo = None if lo is None else a * lo + b
    hi = None if hi is None else a * hi + b
    if a < 0: lo, ls, hi, hs = hi, hs, lo, ls
    return lo, ls, hi, hs
def ivmeet(x, y):
    lo, ls, hi, hs = x[:4]
    if y[0] is not None and (lo is None or y[0] > lo or (y[0] == lo and y[1])): lo, ls = y[0], y[1]
    if y[2] is not None and (hi is None or y[2] < hi or (y[2] == hi and y[3])): hi, hs = y[2], y[3]
    return lo, ls, hi, hs
def ivdecide(o, c, iv):
    lo, ls, hi, hs, ne = iv
    below = hi is not None and (hi < c or (hi == c and hs))
    belowe = hi is not None and hi <= c
    above = lo is not None and (lo > c or (lo == c and ls))
    abovee = lo is not None and lo >= c
    if o == 'lt': return True if below else False if abovee else None
    if o == 'le': return True if belowe else False if above else None
    if o == 'gt': return True if above else False if belowe else None
    if o == 'ge': return True if abovee else False if below else None
    eq = None
    if below or above or c in ne: eq = False
    elif lo is not None and hi is not None and lo == hi == c: eq = True
    return eq if o == 'eq' else (None if eq is None else not eq)
SQS = 10 ** 40
def sqlow(q): return Fraction(math.isqrt(q.numerator * SQS * SQS // q.denominator), SQS)
def sqhigh(q): return q if q == 0 else exact_sqrt(q) or Fraction(math.isqrt(q.numerator * SQS * SQS // q.denominator) + 1, SQS)
def exact_sqrt(q):
    a = math.isqrt(q.numerator); b = math.isqrt(q.denominator)
    return Fraction(a, b) if a * a == q.numerator and b * b == q.denominator else None
def ratrec(x, p, B=1 << 13):
    """small rational with value x mod p, or None"""
    r0, r1 = p, x % p; t0, t1 = 0, 1
    while r1 > B: 
        q = r0 // r1
        r0, r1 = r1, r0 - q * r1
        t0, t1 = t1, t0 - q * t1
    if t1 == 0 or abs(t1) > B: return None
    return Fraction(r1, t1)

class Obligation:
    __slots__ = ('label', 'kind', 'a', 'b', 'facts', 'zfacts', 'choices', 'inputs', 'status', 'info', 'model', 'exact')
    def __init__(s, label, kind, a, b, st):
        s.label = label; s.kind = kind; s.a = a; s.b = b
        s.facts = list(st.facts); s.zfacts = list(st.zassert); s.choices = list(st.choices)
        s.inputs = list(st.inputs); s.status = None; s.info = ''; s.model = None

class Machine:
    def __init__(s, mod, opts=None):
        s.M = mod
        s.opts = opts or {}
        s.stubs = s.opts.get('stubs', [])
        s.stub_of = {}; s.stubbed = set()
        s.cert = None
        s.max_steps = s.opts.get('max_steps', 30_000_000)
        s.max_paths = s.opts.get('max_paths', 4000)
        s.deadline = s.opts.get('deadline')
        s.steps = 0
        s.functions = {}      # functions entered -> count
        s.external = set()
        s.gcache = {}
        s.field = None
        s.unk = set()
        s.fcache = {}; s.freps = []
        s.ftr_exact = False
        s.intercepts = {}
        s.hooks = {}
        s._reg()

    # ------------------------------------------------------------ exploration
    def explore(s, fname):
        """run the contract on every path; yields obligations"""
        s.obls = []
        s.paths = 0
        s.killed = 0
        stack = [[]]
        while stack:
            pre = stack.pop()
            s.paths += 1
            if s.paths > s.max_paths: raise Budget('more than %d paths' % s.max_paths)
            s.run_path(fname, pre, stack)
        return s.obls

    def run_path(s, fname, pre, stack):
        s.prefix = pre
        s.dec = []
        s.stack_alts = stack
        s.facts = []
        s.ivl = {}
        s.zassert = []
        s.solver = z3.Solver()
        s.solver.set('timeout', s.opts.get('ztimeout', 20000))
        s.choices = []
        s.inputs = []
        s.names = {}
        s.globs = {}
        s.nobj = 0
        s.depth = 0; s.active = {}
        s.covered = False
        s.diffvars = {}
        s.fvals = {}
        s.ftr_exact = False
        s.fresh = 0
        s.new_path()
        nob = len(s.obls)
        try:
            s.call(fname, [])
            s.completed = getattr(s, 'completed', 0) + 1
        except PathEnd:
            s.killed += 1

    def new_path(s): pass

    def _decide(s, n, feas):
        """n-way decision; feas(i) -> bool feasibility (called lazily)"""
        k = len(s.dec)
        if k < len(s.prefix):
            i = s.prefix[k]
            s.dec.append(i)
            return i
        opts = [i for i in range(n) if feas(i)]
        if not opts: raise PathEnd()
        for i in reversed(opts[1:]):
            s.stack_alts.append(s.dec + [i])
        s.dec.append(opts[0])
        return opts[0]

    def zcheck(s, *extra):
        r = s.solver.check(*extra)
        return r

    # float facts -------------------------------------------------------
    # Every real term d is written d = A*K + B where K is a representative of
    # its affine class (recognised by finite-field fingerprints); what is known
    # about K is an interval with excluded points.
    def _strip(s, d):
        al = Fraction(1); be = Fraction(0)
        while True:
            op = d.op
            if op == 'neg': al = -al; d = d.a
            elif op == 'mul' and d.a.op == 'const': al *= d.a.a; d = d.b
            elif op == 'mul' and d.b.op == 'const': al *= d.b.a; d = d.a
            elif op == 'add' and d.a.op == 'const': be += al * d.a.a; d = d.b
            elif op == 'add' and d.b.op == 'const': be += al * d.b.a; d = d.a
            elif op == 'sub' and d.b.op == 'const': be -= al * d.b.a; d = d.a
            elif op == 'sub' and d.a.op == 'const': be += al * d.a.a; al = -al; d = d.b
            else: break
        return d, al, be

    def fkey(s, d):
        """(key, a, b): d = a*K + b ; key None means d is the constant b.
        Classes are opened by the terms facts are learned about."""
        e = s.fcache.get(d.id)
        if e is None: e = s.fcache[d.id] = s._finger(d)
        if e[0] is not None: return e[0]
        n = e[1]
        while n < len(s.freps):
            rep = s.freps[n]
            n += 1
            r = s._affine(e[2], e[3], rep)
            if r is not None:
                e[0] = r
                return r
        e[1] = n
        return (('n', d.id), Fraction(1), Fraction(0))

    def _finger(s, d):
        """[result or None, reps compared so far, values, mask]"""
        one = [(('n', d.id), Fraction(1), Fraction(0)), 0, None, None]
        if d.op == 'const': return [(None, Fraction(0), d.a), 0, None, None]
        try:
            if s.field is None: s.field = dag.Field(64, 12345)
            F = s.field
            v = F.ev(d); ok = F.ok[d.id]
        except Unsupported:
            return one
        if ok is None: ok = np.ones(F.P, dtype=bool)
        x = v[ok]
        if len(x) < 12: return one
        if (x == x[0]).all():
            q = ratrec(int(x[0]), F.p)
            return one if q is None else [(None, Fraction(0), q), 0, None, None]
        return [None, 0, v, ok]

    def _affine(s, v, ok, rep):
        key, rv, rok = rep
        m = ok & rok
        x = v[m]; r = rv[m]
        if len(x) < 12: return None
        p = s.field.p
        dx = x != x[0]
        if not ((r != r[0]) == dx).all(): return None
        i = int(dx.argmax())
        if not dx[i]: return None
        P = np.uint64(p)
        X = (x + P - x[0]) % P; R = (r + P - r[0]) % P
        if not (X * R[i] % P == R * X[i] % P).all(): return None
        a = int(X[i]) * pow(int(R[i]), -1, p) % p
        b = (int(x[0]) - a * int(r[0])) % p
        qa = ratrec(a, p); qb = ratrec(b, p)
        if qa is None or qb is None: return None
        return key, qa, qb

    def _open(s, d):
        """make the class of d known to later terms"""
        e = s.fcache.get(d.id)
        if e is None or e[0] is not None or e[2] is None: return
        s.fkey(d)
        if e[0] is not None: return
        s.freps.append((('n', d.id), e[2], e[3]))
        e[0] = (('n', d.id), Fraction(1), Fraction(0))

    def _struct(s, d, depth):
        """interval of the term d from its structure"""
        op = d.op
        if op == 'const': return d.a, False, d.a, False
        if op == 'pi': return Fraction(314159265358979, 10 ** 14), True, Fraction(314159265358980, 10 ** 14), True
        if depth <= 0: return (Fraction(0), False, None, False) if nonneg(d) else NOIV
        if op in ('add', 'sub'):
            x = s._bounds(d.a, depth - 1); y = s._bounds(d.b, depth - 1)
            if op == 'sub': y = ivneg(y)
            r = ivadd(x, y)
        elif op == 'mul':
            x = s._bounds(d.a, depth - 1)
            if d.a is d.b:
                r = ivabs(x)
                r = ivmulp(r, r)
            else: r = ivmul(x, s._bounds(d.b, depth - 1))
        elif op == 'div':
            y = s._bounds(d.b, depth - 1)
            if y[0] is not None and (y[0] > 0 or (y[0] == 0 and y[1])): r = ivmul(s._bounds(d.a, depth - 1), ivinv(y))
            elif y[2] is not None and (y[2] < 0 or (y[2] == 0 and y[3])): r = ivmul(ivneg(s._bounds(d.a, depth - 1)), ivinv(ivneg(y)))
            else: r = NOIV
        elif op == 'abs': r = ivabs(s._bounds(d.a, depth - 1))
        elif op == 'sqrt':
            x = s._bounds(d.a, depth - 1)
            lo, ls = Fraction(0), False
            if x[0] is not None and x[0] >= 0: lo, ls = sqlow(x[0]), x[1] or sqlow(x[0]) ** 2 < x[0]
            hi = None
            if x[2] is not None and x[2] >= 0: hi = sqhigh(x[2])
            r = (lo, ls, hi, x[3] or (hi is not None and hi ** 2 > x[2]))
        elif op in ('sin', 'cos'): r = (Fraction(-1), False, Fraction(1), False)
        elif op == 'exp': r = (Fraction(0), True, None, False)
        elif op == 'acos':      # acos(x) >= sqrt(2(1-x))
            H = s._bounds(d.a, depth - 1)[2]
            r = (sqlow(2 * (1 - H)) if H is not None and H < 1 else Fraction(0), False, Fraction(32, 10), True)
        elif op in ('asin', 'atan'): r = (Fraction(-16, 10), True, Fraction(16, 10), True)
        elif op == 'atan2': r = (Fraction(-32, 10), True, Fraction(32, 10), True)
        elif op == 'floor':
            x = s._bounds(d.a, depth - 1)
            r = (None if x[0] is None else Fraction(math.floor(x[0])), False, x[2], x[3])
        else: r = NOIV
        if nonneg(d) and (r[0] is None or r[0] < 0): r = (Fraction(0), False) + r[2:]
        return r

    def _bounds(s, d, depth):
        d0, al, be = s._strip(d)
        if d0.op == 'const': 
            c = al * d0.a + be
            return c, False, c, False
        r = s._struct(d0, depth)
        if s.ivl or d0.id in s.fcache:
            key, a, b = s.fkey(d0)
            if key is None: r = (b, False, b, False)
            else:
                iv = s.ivl.get(key)
                if iv is not None: r = ivmeet(r, ivaff(iv, a, b))
        return ivaff(r, al, be)

    def _ask(s, op, d):
        """True/False if decided by interval facts, else None; also (key, A, B, interval of K)"""
        d0, al, be = s._strip(d)
        key, a1, b1 = s.fkey(d0)
        if key is None:
            c = al * b1 + be
            return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'eq': c == 0, 'ne': c != 0}[op], None
        A = al * a1; B = al * b1 + be
        c = -B / A
        o = op
        if A < 0: o = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(op, op)
        iv = s.ivl.get(key)
        if iv is None: iv = NOIV + (frozenset(),)
        r = ivdecide(o, c, iv)
        if r is None:
            st = s._struct(d0, 5)
            if st is not NOIV:
                m = ivmeet(iv[:4], ivaff(st, 1 / a1, -b1 / a1))
                iv = m + (iv[4],)
                r = ivdecide(o, c, iv)
        return r, (key, o, c, iv)

    def _narrow(s, x, L, ls, H, hs):
        """x in [L,H]: strengthen the interval of its class"""
        if L is not None: s._learn1('gt' if ls else 'ge', dag.sub(x, dag.const(L)))
        if H is not None: s._learn1('lt' if hs else 'le', dag.sub(x, dag.const(H)))

    def _learn(s, op, d):
        r, _ = s._ask(op, d)
        if r is False: raise PathEnd()
        s.facts.append((op, d))
        if r is True: return
        s._learn1(op, d)

    def _learn1(s, op, d):
        r, q = s._ask(op, d)
        if r is None: s._open(s._strip(d)[0])
        if r is False: raise PathEnd()
        if r is True: return
        key, o, c, iv = q
        lo, ls, hi, hs, ne = iv
        if o in ('lt', 'le'):
            if hi is None or c < hi or (c == hi and o == 'lt'): hi, hs = c, o == 'lt'
            if o == 'le' and c in ne: hs = True
        elif o in ('gt', 'ge'):
            if lo is None or c > lo or (c == lo and o == 'gt'): lo, ls = c, o == 'gt'
            if o == 'ge' and c in ne: ls = True
        elif o == 'eq': lo = hi = c; ls = hs = False
        else:
            ne = ne | {c}
            if lo == c and lo is not None: ls = True
            if hi == c and hi is not None: hs = True
        s.ivl[key] = (lo, ls, hi, hs, ne)
        # what a bound on |x| or sqrt(x) says about x
        d0, al, be = s._strip(d)
        if d0.op in ('abs', 'sqrt'):
            c = -be / al
            o = op if al > 0 else {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(op, op)
            if d0.op == 'sqrt':
                if c < 0: return
                if o in ('lt', 'le'): s._narrow(d0.a, None, False, c * c, o == 'lt')
                elif o in ('gt', 'ge'): s._narrow(d0.a, c * c, o == 'gt', None, False)
                return
            if o in ('lt', 'le'): s._narrow(d0.a, -c, o == 'lt', c, o == 'lt')
            elif o == 'eq': s._narrow(d0.a, -c, False, c, False)
            elif o in ('gt', 'ge') and c >= 0:
                L, l1, H, h1 = s._bounds(d0.a, 5)
                if L is not None and (L > -c or (L == -c and (l1 or o == 'gt'))): s._narrow(d0.a, c, o == 'gt', None, False)
                elif H is not None and (H < c or (H == c and (h1 or o == 'gt'))): s._narrow(d0.a, None, False, -c, o == 'gt')
        elif op in ('lt', 'le', 'eq') and be <= 0 and d0.op == 'add' and al > 0:
            # sum of squares <= c bounds each square
            parts = []
            st = [d0]
            while st:
                m = st.pop()
                if m.op == 'add': st += [m.a, m.b]
                else: parts.append(m)
            if len(parts) <= 6 and all(m.op == 'mul' and m.a is m.b for m in parts):
                h = sqhigh(-be / al)
                for m in parts: s._narrow(m.a, -h, False, h, False)

    def branch(s, c):
        """decide a condition, forking when open -> bool"""
        if isinstance(c, int): return bool(c)
        if c.k == 'and':
            return s.branch(c.a) and s.branch(c.b)
        if c.k == 'or':
            return s.branch(c.a) or s.branch(c.b)
        if c.k == 'not':
            return not s.branch(c.a)
        if c.k == 'f':
            r, _ = s._ask(c.a, c.b)
            if r is not None: return r
            i = s._decide(2, lambda i: s.feas_f(c.a if i == 0 else NEG[c.a], c.b))
            s._learn(c.a if i == 0 else NEG[c.a], c.b)
            return i == 0
        b = z3.simplify(c.a)
        if z3.is_true(b): return True
        if z3.is_false(b): return False
        i = s._decide(2, lambda i: s.zcheck(b if i == 0 else z3.Not(b)) != z3.unsat)
        s.zassume(b if i == 0 else z3.Not(b))
        return i == 0

    def feas_f(s, op, d):
        """could the branch be taken? (@opts: prune=1|2 asks the linear/product certificate)"""
        lv = s.opts.get('prune')
        if not lv: return True
        if s.cert is None:
            import prove
            s.cert = prove.Prover(s.opts.get('seed', 1)).cert
        fs = s.facts + [(op, d)]
        return not any(s.cert.unsat(fs, l) for l in range(1, lv + 1))

    def zassume(s, b):
        s.zassert.append(b)
        s.solver.add(b)

    def assume(s, c):
        if isinstance(c, int):
            if not c: raise PathEnd()
            return
        if c.k == 'and':
            s.assume(c.a); s.assume(c.b); return
        if c.k == 'f':
            s._learn(c.a, c.b); return
        if c.k == 'z':
            s.zassume(c.a)
            if s.zcheck() == z3.unsat: raise PathEnd()
            return
        if not s.branch(c): raise PathEnd()

    def concretize(s, x, w, limit=64, name=''):
        """fork over the feasible values of a bit-vector"""
        if isinstance(x, int): return x
        if isinstance(x, Cond): return 1 if s.branch(x) else 0
        x = bv(x, w)
        y = z3.simplify(x)
        if z3.is_bv_value(y): return y.as_long()
        k = len(s.dec)
        if k < len(s.prefix):
            v = s.prefix[k]
            s.dec.append(v)
        else:
            vals = []
            s.solver.push()
            while True:
                if s.solver.check() != z3.sat: break
                v = s.solver.model().eval(x, model_completion=True).as_long()
                vals.append(v)
                if len(vals) > limit:
                    s.solver.pop()
                    raise Unsupported('concretize: too many values ' + str(x)[:80])
                s.solver.add(x != v)
            s.solver.pop()
            if not vals: raise PathEnd()
            vals.sort()
            for v in reversed(vals[1:]):
                s.stack_alts.append(s.dec + [v])
            v = vals[0]
            s.dec.append(v)
        s.zassume(x == z3.BitVecVal(v, x.size()))
        return v

    # ------------------------------------------------------------ memory
    def alloc(s, size, name):
        s.nobj += 1
        return Obj(name + '#' + str(s.nobj), size)

    def glob(s, nm):
        o = s.globs.get(nm)
        if o is not None: return o
        if nm in s.M.aliases: return s.glob(s.M.aliases[nm])
        if nm in s.M.functxt or nm in s.M.decls:
            o = Obj(nm, 0); o.func = nm
            s.globs[nm] = o
            return o
        ty, v = s.M.global_init(nm)
        o = Obj(nm, s.M.size(ty))
        s.globs[nm] = o
        if v is not None:
            s.init_store(o, 0, ty, v)
        else:
            o.lazy = True
        return o

    def init_store(s, o, off, ty, v):
        M = s.M
        k = v[0]
        if k == 'undef': return
        if ty.k == 'struct':
            offs = M.offs(ty)
            if k == 'zero':
                for e, oo in zip(ty.a, offs): s.init_store(o, off + oo, e, v)
            else:
                for (e, x), oo in zip(v[1], offs): s.init_store(o, off + oo, e, x)
        elif ty.k in ('arr', 'vec'):
            es = M.size(ty.a)
            if k == 'zero':
                for i in range(ty.n): s.init_store(o, off + i * es, ty.a, v)
            elif k == 'str':
                for i, b in enumerate(v[1]): o.cells[off + i] = (1, b)
            else:
                for i, (e, x) in enumerate(v[1]): s.init_store(o, off + i * es, e, x)
        else:
            o.cells[off] = (M.size(ty), s.cval(ty, v))

    def cval(s, ty, v):
        """constant operand -> value"""
        k = v[0]
        if k == 'c': return v[1]
        if k == 'f': return dag.literal(v[1], 64 if ty.n >= 64 else 32)
        if k == 'zero':
            if ty.k == 'fp': return dag.ZERO
            if ty.k == 'ptr': return NULL
            if ty.k == 'struct': return [s.cval(e, v) for e in ty.a]
            if ty.k in ('arr', 'vec'): return [s.cval(ty.a, v) for _ in range(ty.n)]
            return 0
        if k == 'g':
            return Ptr(s.glob(v[1]), 0)
        if k == 'undef':
            if ty.k == 'struct': return [None] * len(ty.a)
            if ty.k in ('arr', 'vec'): return [None] * ty.n
            return None
        if k == 'agg':
            return [s.cval(t, x) for t, x in v[1]]
        if k == 'gep':
            bt = v[1]
            args = v[2]
            p = s.cval(args[0][0], args[0][1])
            return s.gep(p, bt, [(t, s.cval(t, x)) for t, x in args[1:]])
        if k == 'cast':
            x = s.cval(v[2], v[3])
            if v[1] == 'ptrtoint': return PInt(x)
            if v[1] == 'inttoptr' and isinstance(x, PInt): return x.p
            if v[1] == 'inttoptr' and x == 0: return NULL
            return x
        raise Unsupported('const ' + k)

    def gep(s, p, bt, idx):
        M = s.M
        if isinstance(p, PInt): p = p.p
        if not isinstance(p, Ptr): raise Unsupported('gep of ' + repr(p))
        off = p.off
        ty = None
        for n, (it, x) in enumerate(idx):
            if n == 0:
                sz = M.size(bt); ty = bt
            elif ty.k == 'struct':
                off = lin_add(off, M.offs(ty)[x])
                ty = ty.a[x]
                continue
            else:
                ty = ty.a
                sz = M.size(ty)
            if isinstance(x, int):
                if it.n and x >> (it.n - 1): x -= 1 << it.n
                off = lin_add(off, x * sz)
            else:
                if isinstance(x, Cond): x = z3.If(s.zcond(x), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
                if is_z(x) and x.size() < 64: x = z3.SignExt(64 - x.size(), x)
                off = lin_add(off, lin_scale(s.linize(x), sz))
        return Ptr(p.o, off)

    def linize(s, x):
        """split a 64-bit term into constant + rest when it is a visible sum"""
        if isinstance(x, (Lin, int)): return x
        return lin_of(x)

    def load(s, ty, p):
        M = s.M
        if isinstance(p, PInt): p = p.p
        if ty.k == 'struct':
            return [s.load(e, s.padd(p, o)) for e, o in zip(ty.a, M.offs(ty))]
        if ty.k in ('arr', 'vec'):
            es = M.size(ty.a)
            return [s.load(ty.a, s.padd(p, i * es)) for i in range(ty.n)]
        if not isinstance(p, Ptr): raise Unsupported('load from ' + repr(p))
        o = p.o
        if o is None:
            s.memfail('null pointer load')
        off = p.off
        if o.sym is not None:
            return s.symload(o, off, ty)
        if not isinstance(off, int):
            off = s.conc_off(off)
        sz = M.size(ty) if ty.k != 'int' else (ty.n + 7) // 8
        c = o.cells.get(off)
        if c is not None and c[0] == sz:
            return s.coerce(c[1], ty)
        return s.load_slow(o, off, ty, sz)

    def conc_off(s, off):
        r = off.c
        for x, c in off.t.values():
            v = s.concretize(x, 64)
            if v >> 63: v -= 1 << 64
            r += c * v
        return r

    def coerce(s, v, ty):
        if ty.k == 'fp':
            if isinstance(v, Node) or v is None: return v if v is not None else s.undef_f()
            if v == 0 and isinstance(v, int): return dag.ZERO
            if isinstance(v, int):
                import struct
                if ty.n == 64: return dag.literal(struct.unpack('<d', v.to_bytes(8, 'little'))[0])
                if ty.n == 32: return dag.literal(struct.unpack('<f', v.to_bytes(4, 'little'))[0], 32)
            if isinstance(v, tuple) and v[0] == 'fbits': return v[1]
            raise Unsupported('load fp from ' + repr(v))
        if ty.k == 'ptr':
            if isinstance(v, PInt): return v.p
            if isinstance(v, int) and v == 0: return NULL
            if isinstance(v, Ptr): return v
            if v is None: return None
            raise Unsupported('load ptr from ' + repr(v))
        if isinstance(v, Node):
            return ('fbits', v)
        if isinstance(v, Ptr): return PInt(v)
        if ty.k == 'int' and ty.n == 1 and isinstance(v, int): return v & 1
        return v

    def undef_f(s):
        s.fresh += 1
        return dag._mk('undef', 'uninit')

    def load_slow(s, o, off, ty, sz):
        if off < 0 or (o.size is not None and off + sz > o.size):
            s.memfail('out-of-bounds load of %d at %d in %r (size %s)' % (sz, off, o, o.size))
        # assemble from smaller ints / extract from larger
        parts = []
        k = off
        while k < off + sz:
            c = o.cells.get(k)
            if c is None:
                # maybe inside a larger cell
                for b in range(max(0, k - 15), k):
                    cc = o.cells.get(b)
                    if cc is not None and b + cc[0] > k:
                        v = cc[1]
                        if isinstance(v, int) and k == off:
                            v = (v >> (8 * (k - b))) & ((1 << (8 * sz)) - 1)
                            if b + cc[0] >= k + sz: return s.coerce(v, ty)
                        elif is_z(v) and k == off and b + cc[0] >= k + sz:
                            return s.coerce(z3.Extract(8 * (k - b + sz) - 1, 8 * (k - b), v), ty)
                        elif isinstance(v, tuple) and v[0] == 'cat' and k == off:
                            for (o2, z2, v2) in v[1]:
                                if o2 == k - b and z2 == sz: return s.coerce(v2, ty)
                        raise Unsupported('partial load')
                if o.lazy: raise Unsupported('load from external global ' + o.name)
                if parts:
                    # trailing undef bytes
                    parts.append((k - off, off + sz - k, None))
                    break
                return s.undef_of(ty)
            if k + c[0] > off + sz:
                v = c[1]; w = off + sz - k
                if isinstance(v, int): c = (w, v & ((1 << (8 * w)) - 1))
                elif is_z(v): c = (w, z3.Extract(8 * w - 1, 0, v))
                elif isinstance(v, tuple) and v[0] == 'cat' and any(o2 == 0 and z2 == w for o2, z2, _ in v[1]):
                    c = (w, next(v2 for o2, z2, v2 in v[1] if o2 == 0 and z2 == w))
                else: raise Unsupported('partial load2 %r of %d' % (v, w))
            parts.append((k - off, c[0], c[1]))
            k += c[0]
        if all(isinstance(v, int) for _, _, v in parts):
            r = 0
            for b, z, v in parts: r |= (v & ((1 << (8 * z)) - 1)) << (8 * b)
            return s.coerce(r, ty)
        if ty.k == 'int' and all(isinstance(v, int) or is_z(v) for _, _, v in parts):
            return z3.Concat(*[bv(v, 8 * z) for _, z, v in reversed(parts)])
        if ty.k == 'int' or (ty.k == 'fp' and len(parts) > 1):
            return ('cat', parts)
        raise Unsupported('mixed load')

    def undef_of(s, ty):
        if ty.k == 'fp': return s.undef_f()
        return None

    def padd(s, p, k):
        if isinstance(p, PInt): p = p.p
        return Ptr(p.o, lin_add(p.off, k)) if k else p

    def store(s, ty, v, p):
        M = s.M
        if isinstance(p, PInt): p = p.p
        if ty.k == 'struct':
            for e, o, x in zip(ty.a, M.offs(ty), v or [None] * len(ty.a)):
                if x is not None: s.store(e, x, s.padd(p, o))
            return
        if ty.k in ('arr', 'vec'):
            es = M.size(ty.a)
            for i in range(ty.n):
                if v[i] is not None: s.store(ty.a, v[i], s.padd(p, i * es))
            return
        if not isinstance(p, Ptr): raise Unsupported('store to ' + repr(p))
        o = p.o
        if o is None: s.memfail('null pointer store')
        off = p.off
        if o.sym is not None:
            return s.symstore(o, off, ty, v)
        if not isinstance(off, int): off = s.conc_off(off)
        sz = M.size(ty) if ty.k != 'int' else (ty.n + 7) // 8
        if off < 0 or (o.size is not None and off + sz > o.size):
            s.memfail('out-of-bounds store of %d at %d in %r (size %s)' % (sz, off, o, o.size))
        s.put(o, off, sz, v)

    def put(s, o, off, sz, v):
        cells = o.cells
        if isinstance(v, tuple) and v[0] == 'cat':
            for b, z, x in v[1]:
                if x is None: cells.pop(off + b, None)
                else: s.put(o, off + b, z, x)
            return
        if isinstance(v, tuple) and v[0] == 'fbits': v = v[1]
        c = cells.get(off)
        if c is None or c[0] != sz:
            s.clear(o, off, sz)
        if v is None:
            cells.pop(off, None)
        else:
            cells[off] = (sz, v)

    def clear(s, o, off, sz):
        cells = o.cells
        for b in range(max(0, off - 15), off):
            c = cells.get(b)
            if c is not None and b + c[0] > off:
                del cells[b]
                v = c[1]
                if isinstance(v, int):
                    for i in range(c[0]):
                        if b + i < off or b + i >= off + sz:
                            cells[b + i] = (1, (v >> (8 * i)) & 255)
        for b in range(off, off + sz):
            c = cells.pop(b, None)
            if c is not None and b + c[0] > off + sz:
                v = c[1]
                if isinstance(v, int):
                    for i in range(c[0]):
                        if b + i >= off + sz:
                            cells[b + i] = (1, (v >> (8 * i)) & 255)

    def memfail(s, why):
        s.oblige_false('memory safety: ' + why)
        raise PathEnd()

    def oblige_false(s, label):
        s.obls.append(Obligation(label, 'false', None, None, s))

    def symload(s, o, off, ty): raise Unsupported('symbolic array')
    def symstore(s, o, off, ty, v): raise Unsupported('symbolic array')

    def memcpy(s, d, sr, n):
        if n == 0: return
        if not isinstance(n, int): raise Unsupported('symbolic memcpy')
        if d.o is None or sr.o is None: s.memfail('memcpy null')
        if d.o.sym is not None or sr.o.sym is not None:
            return s.symcpy(d, sr, n)
        do = d.off if isinstance(d.off, int) else s.conc_off(d.off)
        so = sr.off if isinstance(sr.off, int) else s.conc_off(sr.off)
        if so < 0 or (sr.o.size is not None and so + n > sr.o.size): s.memfail('memcpy source out of bounds')
        if do < 0 or (d.o.size is not None and do + n > d.o.size): s.memfail('memcpy dest out of bounds')
        if n < len(sr.o.cells) * 2:
            items = [(k - so, sr.o.cells[k]) for k in range(so, so + n) if k in sr.o.cells]
        else:
            items = [(k - so, c) for k, c in sr.o.cells.items() if so <= k < so + n]
        items = [(k, (min(c[0], n - k), c[1] if k + c[0] <= n else c[1])) for k, c in items]
        s.clear(d.o, do, n)
        for k, c in items:
            d.o.cells[do + k] = c

    def symcpy(s, d, sr, n): raise Unsupported('symbolic memcpy')

    # ------------------------------------------------------------ integer ops
    def zcond(s, c):
        """Cond -> z3 Bool (integer conditions only)"""
        if isinstance(c, int): return z3.BoolVal(bool(c))
        if c.k == 'z': return c.a
        if c.k == 'and': return z3.And(s.zcond(c.a), s.zcond(c.b))
        if c.k == 'or': return z3.Or(s.zcond(c.a), s.zcond(c.b))
        if c.k == 'not': return z3.Not(s.zcond(c.a))
        return z3.BoolVal(s.branch(c))

    def ibin(s, op, w, a, b):
        if isinstance(a, int) and isinstance(b, int):
            m = (1 << w) - 1
            if op == 'add': return (a + b) & m
            if op == 'sub': return (a - b) & m
            if op == 'mul': return (a * b) & m
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & m if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr':
                if a >> (w - 1): a -= 1 << w
                return (a >> min(b, w)) & m
            if op in ('udiv', 'urem'):
                if b == 0: s.memfail('division by zero')
                return a // b if op == 'udiv' else a % b
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            if sb == 0: s.memfail('division by zero')
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0): q = -q
            if op == 'sdiv': return q & m
            return (sa - q * sb) & m
        if a is None or b is None: raise Unsupported('arithmetic on undef (%s)' % op)
        if w == 1:
            if op == 'and': return cand(a, b)
            if op == 'or': return cor(a, b)
            if op in ('xor', 'add', 'sub'): return cxor(a, b)
        # bool-ish values widened
        if isinstance(a, Cond) or isinstance(b, Cond):
            if op == 'xor' and isinstance(b, int) and b == 1: return cnot(a)
            if op == 'and' and isinstance(b, int): return a if b & 1 else 0
            if op == 'and' and isinstance(a, Cond) and isinstance(b, Cond): return cand(a, b)
            if op == 'or' and isinstance(a, Cond) and isinstance(b, Cond): return cor(a, b)
            if op == 'and' and isinstance(a, int): return b if a & 1 else 0
            if op == 'or' and (a == 0 or b == 0): return a if b == 0 else b
            def fl(x):
                if isinstance(x, Cond):
                    try_ = x
                    if try_.k != 'z': return 1 if s.branch(x) else 0
                    return bv(x, w)
                return x
            return s.ibin(op, w, fl(a), fl(b))
        if isinstance(a, (PInt, Lin)) or isinstance(b, (PInt, Lin)):
            return s.pbin(op, w, a, b)
        # structural linear forms for 64-bit index arithmetic
        if w == 64 and op in ('add', 'sub') and False:
            pass
        x = bv(a, w); y = bv(b, w)
        if op == 'add': r = x + y
        elif op == 'sub': r = x - y
        elif op == 'mul': r = x * y
        elif op == 'and': r = x & y
        elif op == 'or': r = x | y
        elif op == 'xor': r = x ^ y
        elif op == 'shl': r = x << y
        elif op == 'lshr': r = z3.LShR(x, y)
        elif op == 'ashr': r = x >> y
        elif op == 'udiv': r = z3.UDiv(x, y)
        elif op == 'urem': r = z3.URem(x, y)
        elif op == 'sdiv': r = x / y
        else: r = z3.SRem(x, y)
        if op in ('udiv', 'urem', 'sdiv', 'srem') and not isinstance(b, int):
            s.zoblige(y != 0, 'division by zero')
        return zsimp(r)

    def pbin(s, op, w, a, b):
        if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
            if a.p.o is not b.p.o:
                if a.p.o is None or b.p.o is None: raise Unsupported('pointer difference with null')
                raise Unsupported('pointer difference across objects')
            r = lin_add(a.p.off, b.p.off, -1)
            return r & ((1 << 64) - 1) if isinstance(r, int) else r
        if op == 'add' and isinstance(a, PInt): return PInt(s.padd(a.p, s._signed(b)))
        if op == 'add' and isinstance(b, PInt): return PInt(s.padd(b.p, s._signed(a)))
        if op == 'sub' and isinstance(a, PInt): return PInt(s.padd(a.p, -s._signed(b)))
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'and' and isinstance(b, int) and isinstance(a.p.off, int):
                return a.p.off & b      # alignment test
            raise Unsupported('pointer arithmetic ' + op)
        if op in ('sdiv', 'udiv', 'ashr', 'lshr') and isinstance(b, int):
            k = b if op[1:] == 'div' else 1 << b
            L = lin_of(a)
            if L.c % k == 0 and all(c % k == 0 for _, c in L.t.values()):
                t = {i: (x, c // k) for i, (x, c) in L.t.items()}
                if not L.c and len(t) == 1 and list(t.values())[0][1] == 1:
                    return list(t.values())[0][0]
                return lin_bv(Lin(L.c // k, t))
        return s.ibin(op, w, lin_bv(a) if isinstance(a, Lin) else a, lin_bv(b) if isinstance(b, Lin) else b)

    @staticmethod
    def _signed(x):
        if isinstance(x, int) and x >> 63: return x - (1 << 64)
        if not isinstance(x, int): raise Unsupported('symbolic pointer int arithmetic')
        return x

    def icmp(s, pr, ty, a, b):
        if ty.k == 'vec': raise Unsupported('vector icmp')
        if isinstance(a, int) and isinstance(b, int):
            w = ty.n
            if pr[0] == 's':
                if a >> (w - 1): a -= 1 << w
                if b >> (w - 1): b -= 1 << w
            return int({'eq': a == b, 'ne': a != b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b,
                        'sgt': a > b, 'sge': a >= b, 'slt': a < b, 'sle': a <= b}[pr])
        if ty.k == 'ptr' or isinstance(a, (Ptr, PInt)) or isinstance(b, (Ptr, PInt)):
            if isinstance(a, PInt): a = a.p
            if isinstance(b, PInt): b = b.p
            if isinstance(a, int): a = NULL if a == 0 else a
            if isinstance(b, int): b = NULL if b == 0 else b
            if a is None or b is None: raise Unsupported('compare undef pointer')
            if a.o is not b.o:
                if pr in ('eq', 'ne'): return int(pr == 'ne')
                # unrelated objects: order unspecified; used by overlap tests only
                return int(pr in ('ult', 'ule')) if (a.o is None) else int(pr in ('ugt', 'uge'))
            d = lin_add(a.off, b.off, -1)
            if isinstance(d, int):
                return int({'eq': d == 0, 'ne': d != 0, 'ugt': d > 0, 'uge': d >= 0, 'ult': d < 0, 'ule': d <= 0}[pr])
            x = lin_bv(a.off); y = lin_bv(b.off)
            return s._zcmp(pr, bv(x, 64), bv(y, 64))
        if a is None or b is None: raise Unsupported('compare undef')
        if isinstance(a, Cond) and isinstance(b, int):
            if pr == 'ne': return a if b == 0 else (cnot(a) if b == 1 else 1)
            if pr == 'eq': return cnot(a) if b == 0 else (a if b == 1 else 0)
            a = 1 if s.branch(a) else 0
            return s.icmp(pr, ty, a, b)
        if isinstance(a, Cond) or isinstance(b, Cond):
            if isinstance(a, Cond) and isinstance(b, Cond):
                x = cxor(a, b)
                return x if pr == 'ne' else cnot(x)
            if isinstance(a, Cond): a = 1 if s.branch(a) else 0
            if isinstance(b, Cond): b = 1 if s.branch(b) else 0
            return s.icmp(pr, ty, a, b)
        if isinstance(a, tuple) or isinstance(b, tuple): raise Unsupported('compare of float bits')
        return s._zcmp(pr, bv(a, ty.n), bv(b, ty.n))

    def _zcmp(s, pr, x, y):
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
             'slt': lambda: x < y, 'sle': lambda: x <= y}[pr]()
        q = z3.simplify(r)
        if z3.is_true(q): return 1
        if z3.is_false(q): return 0
        return Cond('z', r)

    def fcmp(s, pr, a, b):
        if pr == 'ord': return 1
        if pr == 'uno': return 0
        if pr == 'true': return 1
        if pr == 'false': return 0
        if a.op == 'undef' or b.op == 'undef': raise Unsupported('compare of undefined float')
        o = pr[1:]
        if a.op == 'inf' or b.op == 'inf':
            va = a.a if a.op == 'inf' else 0
            vb = b.a if b.op == 'inf' else 0
            return int({'eq': va == vb, 'ne': va != vb, 'lt': va < vb, 'le': va <= vb, 'gt': va > vb, 'ge': va >= vb}[o])
        return fcond(o, dag.sub(a, b))

    def zoblige(s, b, label):
        """integer obligation decided on the spot; afterwards assumed"""
        q = z3.simplify(b)
        ob = Obligation(label, 'z', None, None, s)
        s.obls.append(ob)
        if z3.is_true(q):
            ob.status = 'proved'; ob.info = 'simplify'
            return True
        t0 = time.time()
        r = s.zcheck(z3.Not(b))
        ob.info = 'z3-bv %.3fs' % (time.time() - t0)
        if r == z3.unsat:
            ob.status = 'proved'
            s.zassume(b)
            return True
        elif r == z3.sat:
            ob.status = 'refuted'
            ob.model = s.solver.model()
        else:
            ob.status = 'unknown'
        s.zassume(b)
        if s.zcheck() == z3.unsat: raise PathEnd()
        return False

    # ------------------------------------------------------------ interpretation
    def call(s, name, args):
        while name in s.M.aliases: name = s.M.aliases[name]
        h = s.hooks.get(name)
        if h is None:
            h = s.find_hook(name)
            s.hooks[name] = h
        if h:
            r = h(s, name, args)
            if r is not NotImplemented: return r
        if s.stubs:                       # callee replaced by its contract
            t = s.stub_of.get(name, 0)
            if t == 0:
                t = s.stub_of[name] = s.find_stub(name)
            if t is not None and not (t.startswith('@rec_') and not s.active.get(name)):   # rec_*: the recursive calls only
                s.stubbed.add(name)
                return s.call(t, args)
        F = s.M.func(name)
        if F is None:
            raise Unsupported('external function ' + name)
        s.functions[name] = s.functions.get(name, 0) + 1
        if s.stubs:
            s.active[name] = s.active.get(name, 0) + 1
            r = s.exec(F, args)
            s.active[name] -= 1
            return r
        return s.exec(F, args)

    def find_stub(s, name):
        for rx, t in s.stubs:
            if name != t and re.search(rx, name):
                F, G = s.M.func(name), s.M.func(t)
                if G is not None and (F is None or [p[1] for p in F.params] == [p[1] for p in G.params]): return t
        return None

    def val(s, R, ty, v):
        if v[0] == 'r': return R[v[1]]
        if v[0] == 'c': return v[1]
        return s.cval(ty, v)

    def exec(s, F, args):
        s.depth += 1
        if s.depth > 400: raise Budget('call depth')
        R = {}
        M = s.M
        for (pn, pt, byval), a in zip(F.params, args):
            R[pn] = a
        bb = F.entry
        prev = None
        val = s.val
        while True:
            insts = F.block(bb)
            i = 0
            n = len(insts)
            # phis first (parallel)
            if insts[0][0] == 'phi':
                new = []
                while insts[i][0] == 'phi':
                    I = insts[i]
                    new.append((I[1], val(R, I[2], I[3][prev])))
                    i += 1
                for k, v in new: R[k] = v
            s.steps += n
            if s.steps > s.max_steps: raise Budget('step budget')
            if s.deadline and time.time() > s.deadline: raise Budget('time budget')
            nxt = None
            while i < n:
                I = insts[i]
                i += 1
                op = I[0]
                if op == 'load':
                    R[I[1]] = s.load(I[2], val(R, ir.PTR, I[3]))
                elif op == 'store':
                    s.store(I[2], val(R, I[2], I[3]), val(R, ir.PTR, I[4]))
                elif op == 'gep':
                    a = I[3]
                    R[I[1]] = s.gep(val(R, ir.PTR, a[0][1]), I[2], [(t, val(R, t, x)) for t, x in a[1:]])
                elif op == 'call':
                    c = I[3]
                    av = []
                    for at, x, byval in I[4]:
                        y = None if at is ir.META else val(R, at, x)
                        if byval is not None:
                            o = s.alloc(M.size(byval), 'byval')
                            q = Ptr(o, 0)
                            s.memcpy(q, y, M.size(byval))
                            y = q
                        av.append(y)
                    if c[0] == 'g': fn = c[1]
                    else:
                        fp = val(R, ir.PTR, c)
                        if not isinstance(fp, Ptr) or fp.o is None or fp.o.func is None: raise Unsupported('indirect call')
                        fn = fp.o.func
                    r = s.call(fn, av)
                    if I[1] is not None: R[I[1]] = r
                    if I[5] is not None:
                        nxt = I[5]
                elif op in ir.FBIN:
                    ty = I[2]
                    a = val(R, ty, I[3]); b = val(R, ty, I[4])
                    if ty.k == 'vec':
                        R[I[1]] = [s.fbin(op, x, y) for x, y in zip(a, b)]
                    else:
                        R[I[1]] = s.fbin(op, a, b)
                elif op in ir.BIN:
                    ty = I[2]
                    a = val(R, ty, I[3]); b = val(R, ty, I[4])
                    if ty.k == 'vec':
                        R[I[1]] = [s.ibin(op, ty.a.n, x, y) for x, y in zip(a, b)]
                    else:
                        R[I[1]] = s.ibin(op, ty.n, a, b)
                elif op == 'icmp':
                    R[I[1]] = s.icmp(I[3], I[2], val(R, I[2], I[4]), val(R, I[2], I[5]))
                elif op == 'fcmp':
                    R[I[1]] = s.fcmp(I[3], val(R, I[2], I[4]), val(R, I[2], I[5]))
                elif op == 'jmp':
                    nxt = I[2]
                elif op == 'br':
                    c = val(R, ir.INT(1), I[2])
                    if c is None: raise Unsupported('branch on undef')
                    nxt = I[3] if s.branch(c) else I[4]
                elif op == 'ret':
                    s.depth -= 1
                    if I[2] is None: return None
                    return val(R, I[2], I[3])
                elif op == 'alloca':
                    cnt = 1 if I[3] is None else val(R, ir.INT(64), I[3])
                    if not isinstance(cnt, int): raise Unsupported('vla')
                    R[I[1]] = Ptr(s.alloc(M.size(I[2]) * cnt, 'stack' + I[1]), 0)
                elif op == 'select':
                    c = val(R, ir.INT(1), I[3])
                    a = val(R, I[2], I[4]); b = val(R, I[2], I[5])
                    R[I[1]] = s.select(c, I[2], a, b)
                elif op == 'fneg':
                    R[I[1]] = dag.neg(s.res(val(R, I[2], I[3])))
                elif op in ir.CAST:
                    R[I[1]] = s.cast(op, I[2], val(R, I[2], I[3]), I[4])
                elif op == 'switch':
                    v = val(R, I[3] if False else I[2], I[3])
                    if not isinstance(v, int):
                        v = s.concretize(v, I[2].n)
                    nxt = I[4]
                    for cv, lab in I[5]:
                        if cv == v: nxt = lab
                elif op == 'extractvalue':
                    v = val(R, I[2], I[3])
                    for k in I[4]: v = v[k]
                    R[I[1]] = v
                elif op == 'insertvalue':
                    v = val(R, I[2], I[3]); e = val(R, ir.VOID, I[4])
                    R[I[1]] = s.insv(v, e, I[5])
                elif op == 'extractelement':
                    v = val(R, I[2], I[3]); k = val(R, ir.INT(32), I[4])
                    R[I[1]] = v[k]
                elif op == 'insertelement':
                    v = list(val(R, I[2], I[3])); e = val(R, I[2].a, I[4]); k = val(R, ir.INT(32), I[5])
                    v[k] = e
                    R[I[1]] = v
                elif op == 'freeze':
                    R[I[1]] = val(R, I[2], I[3])
                elif op == 'unreachable':
                    raise PathEnd()
                else:
                    raise Unsupported(str(I)[:160])
            prev = bb
            bb = nxt
            if bb is None: raise Unsupported('fallthrough in ' + F.name)

    def insv(s, v, e, idx):
        v = list(v)
        if len(idx) == 1: v[idx[0]] = e
        else: v[idx[0]] = s.insv(v[idx[0]], e, idx[1:])
        return v

    def select(s, c, ty, a, b):
        if isinstance(c, int): return a if c else b
        if isinstance(c, list): return [s.select(x, ty.a, y, z) for x, y, z in zip(c, a, b)]
        if ty.k == 'int' and c.k == 'z' and not isinstance(a, (Cond, PInt, Lin)) and not isinstance(b, (Cond, PInt, Lin)) \
                and a is not None and b is not None and not isinstance(a, tuple) and not isinstance(b, tuple):
            if ty.n == 1: return cor(cand(c, a), cand(cnot(c), b))
            return zsimp(z3.If(c.a, bv(a, ty.n), bv(b, ty.n)))
        if ty.k == 'int' and ty.n == 1:
            return cor(cand(c, a), cand(cnot(c), b))
        return a if s.branch(c) else b

    def res(s, x):
        """fork the sign of a pending |.|"""
        if x.op != 'abs': return x
        return x.a if s.branch(fcond('ge', x.a)) else dag.neg(x.a)

    def fbin(s, op, a, b):
        if a.op == 'abs': a = s.res(a)
        if b.op == 'abs': b = s.res(b)
        if a.op in ('undef',): return a
        if b.op in ('undef',): return b
        if a.op == 'inf' or b.op == 'inf':
            raise Unsupported('arithmetic on infinity')
        if op == 'fadd': return dag.add(a, b)
        if op == 'fsub': return dag.sub(a, b)
        if op == 'fmul': return dag.mul(a, b)
        if op == 'fdiv':
            r = dag.div(a, b)
            return r
        raise Unsupported('frem')

    def cast(s, op, st, v, dt):
        if op == 'fpext': return v
        if op == 'fptrunc':
            v = s.res(v)
            if s.ftr_exact or v.op in ('undef', 'inf'): return v
            if v.op == 'const' and v.a.denominator == 1 and abs(v.a) < 2 ** 24: return v
            return dag._mk('un_ftr', v)
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, int):
                if op == 'sitofp' and v >> (st.n - 1): v -= 1 << st.n
                return dag.const(v)
            if isinstance(v, Cond): return dag.ONE if s.branch(v) else dag.ZERO
            return s.int2real(v, op == 'sitofp')
        if op in ('fptosi', 'fptoui'):
            if v.op == 'const':
                q = v.a
                n = abs(q.numerator) // q.denominator
                if q < 0: n = -n
                if dt.n < 64 or True:
                    return n & ((1 << dt.n) - 1)
            return s.real2int(v, dt.n, op == 'fptosi')
        if op == 'ptrtoint': return PInt(v) if v.o is not None else 0
        if op == 'inttoptr':
            if isinstance(v, PInt): return v.p
            if isinstance(v, int) and v == 0: return NULL
            raise Unsupported('inttoptr')
        if op == 'bitcast':
            if st.k == dt.k == 'int' or st.k == 'ptr': return v
            if st.k == 'fp' and dt.k == 'int': return ('fbits', v)
            if st.k == 'int' and dt.k == 'fp':
                if isinstance(v, tuple) and v[0] == 'fbits': return v[1]
                return s.coerce(v, dt)
            if st.k == 'vec' and dt.k == 'fp' : 
                return ('catv', v)
            if st.k == 'fp' and dt.k == 'vec' and isinstance(v, tuple): return v[1]
            raise Unsupported('bitcast')
        if v is None: return None
        if isinstance(v, list): return [s.cast(op, st.a, x, dt.a) for x in v]
        if op == 'trunc':
            if isinstance(v, int): return v & ((1 << dt.n) - 1)
            if isinstance(v, Cond): return v
            if isinstance(v, tuple):
                raise Unsupported('trunc tuple')
            if isinstance(v, Lin): v = lin_bv(v)
            if isinstance(v, PInt): raise Unsupported('trunc ptr')
            r = z3.Extract(dt.n - 1, 0, v)
            if dt.n == 1: return s._zcmp('eq', r, z3.BitVecVal(1, 1))
            return zsimp(z3.simplify(r))
        if isinstance(v, int):
            if op == 'sext' and v >> (st.n - 1): v -= 1 << st.n
            return v & ((1 << dt.n) - 1)
        if isinstance(v, Cond):
            if op == 'zext': return v
            return z3.If(s.zcond(v), z3.BitVecVal(-1, dt.n), z3.BitVecVal(0, dt.n))
        if op == 'zext': return z3.ZeroExt(dt.n - st.n, bv(v, st.n))
        return z3.SignExt(dt.n - st.n, bv(v, st.n))

    def int2real(s, v, signed): raise Unsupported('int to real of a symbolic integer')
    def real2int(s, v, n, signed):
        """truncation: fork over the integers in the interval of v"""
        lo, _, hi, _ = s._bounds(v, 6)
        if lo is None or hi is None or hi - lo > 64: raise Unsupported('real to int of an unbounded real')
        tr = lambda q: math.floor(q) if q >= 0 else math.ceil(q)
        k, e = tr(lo), tr(hi)
        while k < e:
            # trunc(v) <= k  <=>  v < k+1 (k >= 0), v <= k (k < 0)
            if s.branch(fcond('lt', dag.sub(v, dag.const(k + 1))) if k >= 0 else fcond('le', dag.sub(v, dag.const(k)))): break
            k += 1
        return k & ((1 << n) - 1)

    # ------------------------------------------------------------ library hooks
    def _reg(s):
        pass

    def find_hook(s, name):
        nm = name[1:]
        h = HOOKS.get(nm)
        if h: return h
        if nm.startswith('llvm.'):
            b = nm.split('.')
            k = b[1]
            if k in ('lifetime', 'dbg', 'assume', 'donothing', 'experimental', 'stacksave', 'stackrestore', 'invariant', 'va_start', 'va_end'):
                return lambda m, n, a: None
            if k in ('memcpy', 'memmove'):
                def f(m, n, a):
                    m.memcpy(a[0], a[1], a[2]); return a[0]
                return f
            if k == 'memset':
                return h_memset
            if k in MATH1:
                return lambda m, n, a: m.math1(k, a[0])
            if k == 'fabs': return h_fabs
            if k in ('fmuladd', 'fma'): return lambda m, n, a: dag.add(dag.mul(a[0], a[1]), a[2])
            if k == 'pow': return lambda m, n, a: dag.pow_(m.res(a[0]), a[1])
            if k == 'powi': return lambda m, n, a: dag.powi(a[0], a[1] - (1 << 32) if a[1] >> 31 else a[1])
            if k in ('maxnum', 'minnum'):
                return lambda m, n, a: a[0] if m.branch(fcond('ge' if k == 'maxnum' else 'le', dag.sub(a[0], a[1]))) else a[1]
            if k in ('umax', 'umin', 'smax', 'smin'): return h_minmax
            if k == 'ctlz': return h_ctlz
            if k == 'trap': return h_trap
            if k == 'expect': return lambda m, n, a: a[0]
            if k == 'abs':
                return lambda m, n, a: a[0] if not isinstance(a[0], int) else a[0]
            if k == 'copysign':
                return lambda m, n, a: h_fabs(m, n, [a[0]]) if m.branch(fcond('ge', a[1])) else dag.neg(h_fabs(m, n, [a[0]]))
            if k in ('umul', 'smul', 'uadd') :
                return h_overflow
            if nm.startswith('llvm.is.constant'): return lambda m, n, a: 0
            if k == 'is': return lambda m, n, a: (_ for _ in ()).throw(Unsupported('is.fpclass'))
        if nm.startswith(('_ZNSols', '_ZNSo9_M_insert', '_ZStls', '_ZSt4endl', '_ZSt16__ostream_insert', '_ZNSo3put', '_ZNSo5flush')):
            return h_ostream      # output to a stream: returns the stream, no other effect
        b = nm[:-1] if nm.endswith('f') and nm[:-1] in MATH1 | {'fabs', 'pow', 'atan2', 'fmod'} else nm
        if b in MATH1: return lambda m, n, a: m.math1(b, a[0])
        if b == 'fabs': return h_fabs
        if b == 'pow': return lambda m, n, a: dag.pow_(m.res(a[0]), a[1])
        if b == 'atan2': return lambda m, n, a: dag.atan2(m.res(a[0]), m.res(a[1]))
        return 0

    def math1(s, k, x):
        if x.op == 'undef': return x
        return dag.fn1(k, s.res(x))

HOOKS = {}
def hook(*names):
    def d(f):
        for n in names: HOOKS[n] = f
        return f
    return d

def h_fabs(m, n, a):
    x = a[0]
    if x.op == 'undef': return x
    if x.op == 'const': return dag.const(abs(x.a))
    if nonneg(x): return x
    if x.op == 'neg': x = x.a
    return dag._mk('abs', x)

def h_memset(m, n, a):
    p, v, k = a[0], a[1], a[2]
    if k == 0: return p
    if not isinstance(k, int): raise Unsupported('symbolic memset')
    if p.o.sym is not None: raise Unsupported('memset symbolic array')
    off = p.off if isinstance(p.off, int) else m.conc_off(p.off)
    if p.o.size is not None and off + k > p.o.size: m.memfail('memset out of bounds')
    m.clear(p.o, off, k)
    if not isinstance(v, int): raise Unsupported('symbolic memset value')
    i = 0
    # 4-byte granularity first: later 8-byte loads assemble
    while i + 4 <= k:
        p.o.cells[off + i] = (4, v * 0x01010101)
        i += 4
    while i < k:
        p.o.cells[off + i] = (1, v); i += 1
    return p

def h_minmax(m, n, a):
    k = n.split('.')[1]
    w = int(n.split('.')[2][1:])
    c = m.icmp({'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[k], ir.INT(w), a[0], a[1])
    return m.select(c, ir.INT(w), a[0], a[1])

def h_ctlz(m, n, a):
    x = a[0]
    w = int(n.split('.')[2][1:])
    if isinstance(x, int): return w - x.bit_length()
    r = z3.BitVecVal(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, w), r)
    return r

def h_overflow(m, n, a):
    w = int(n.split('.')[-1][1:])
    k = n.split('.')[1]
    x, y = a
    if isinstance(x, int) and isinstance(y, int):
        r = x * y if 'mul' in k else x + y
        return [r & ((1 << w) - 1), int(r >> w != 0)]
    raise Unsupported('overflow intrinsic')

def h_trap(m, n, a):
    m.oblige_false('trap reached')
    raise PathEnd()

@hook('_Znwm', '_Znam', 'malloc')
def h_new(m, n, a):
    k = a[0]
    if not isinstance(k, int):
        raise Unsupported('symbolic allocation')
    return Ptr(m.alloc(k, 'heap'), 0)

@hook('_ZdlPv', '_ZdlPvm', '_ZdaPv', 'free', '_ZdaPvm')
def h_del(m, n, a):
    if a[0].o is not None: a[0].o.freed = True
    return None

@hook('__assert_fail')
def h_assert(m, n, a):
    m.oblige_false('assertion in the code: ' + m.cstring(a[0]))
    raise PathEnd()

@hook('abort', 'exit', '_exit')
def h_abort(m, n, a):
    m.oblige_false('abort/exit reached')
    raise PathEnd()

@hook('_ZSt20__throw_length_errorPKc', '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt24__throw_out_of_range_fmtPKcz',
      '__cxa_throw', '_ZSt20__throw_out_of_rangePKc', '_ZSt19__throw_logic_errorPKc')
def h_throw(m, n, a):
    m.oblige_false('exception thrown: ' + n)
    raise PathEnd()

@hook('__cxa_atexit', '__cxa_guard_release')
def h_nop(m, n, a): return 0
@hook('__cxa_guard_acquire')
def h_guard(m, n, a):
    return 1

@hook('memcpy', 'memmove')
def h_memcpy(m, n, a):
    m.memcpy(a[0], a[1], a[2]); return a[0]

@hook('abs', 'labs')
def h_iabs(m, n, a):
    x = a[0]
    w = 32 if n == '@abs' else 64
    if isinstance(x, int): return (1 << w) - x if x >> (w - 1) else x
    return z3.If(x < 0, -x, x)

@hook('puts', 'printf', 'putchar')
def h_io(m, n, a): return 0

def h_ostream(m, n, a): return a[0]

@hook('__divdc3')          # complex division, run-time library of the compiler
def h_divdc3(m, n, a):
    x, y, u, v = [m.res(t) for t in a]
    d = dag.add(dag.mul(u, u), dag.mul(v, v))
    return [dag.div(dag.add(dag.mul(x, u), dag.mul(y, v)), d), dag.div(dag.sub(dag.mul(y, u), dag.mul(x, v)), d)]

# ---- contract API
def cstring(m, p):
    r = bytearray()
    o = p.off
    while True:
        c = p.o.cells.get(o)
        if c is None or c[1] == 0: break
        r.append(c[1]); o += 1
    return r.decode('latin1')
Machine.cstring = cstring

def newname(m, nm):
    k = m.names.get(nm, 0)
    m.names[nm] = k + 1
    return nm if k == 0 else '%s~%d' % (nm, k)

@hook('vc_real')
def h_real(m, n, a):
    nm = newname(m, m.cstring(a[0]))
    v = dag.var(nm)
    m.inputs.append(('r', nm, v))
    return v

@hook('vc_zero_')
def h_zero(m, n, a):
    return dag.zvar(newname(m, 'perturbation'))

@hook('vc_realf')
def h_realf(m, n, a):
    return h_real(m, n, a)

@hook('vc_choose')
def h_choose(m, n, a):
    k = a[0]
    i = m._decide(k, lambda i: True)
    m.choices.append(i)
    m.inputs.append(('c', 'choose', i))
    return i

@hook('vc_assume_')
def h_assume(m, n, a):
    m.assume(a[0])
    return None

@hook('vc_eq_')
def h_eq(m, n, a):
    m.obls.append(Obligation(m.cstring(a[2]), 'eq', m.res(a[0]), m.res(a[1]), m))
    m.covered = True

@hook('vc_ge_')
def h_ge(m, n, a):
    m.obls.append(Obligation(m.cstring(a[2]), 'ge', m.res(a[0]), m.res(a[1]), m))
    m.covered = True

@hook('vc_check_')
def h_check(m, n, a):
    c = a[0]
    lab = m.cstring(a[1])
    if isinstance(c, int):
        if c:
            ob = Obligation(lab, 'z', None, None, m); ob.status = 'proved'; ob.info = 'evaluation'
            m.obls.append(ob)
            return
        m.oblige_false(lab)
        return
    if pure_z(c):
        m.zoblige(m.zcond(c), lab)
        return
    m.obls.append(Obligation(lab, 'cond', c, None, m))

def pure_z(c):
    if isinstance(c, int): return True
    if c.k == 'z': return True
    if c.k == 'f': return False
    if c.k == 'not': return pure_z(c.a)
    return pure_z(c.a) and pure_z(c.b)

@hook('vc_diff_')
def h_diff(m, n, a):
    x = a[1]
    return dag.deriv(a[0], x) if x.op == 'var' else _bad('vc_diff wrt non-input')

def _bad(x): raise Unsupported(x)

@hook('vc_float_exact')
def h_fex(m, n, a):
    m.ftr_exact = True

@hook('vc_is_symbolic')
def h_issym(m, n, a): return 1
