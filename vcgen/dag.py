"""Hash-consed real-valued term DAG, exact differentiation, randomised exact
identity testing over prime fields, numeric evaluation, z3 translation."""
import math, random
from fractions import Fraction
import numpy as np

class Unsupported(Exception):
    pass

class Node:
    __slots__ = ('id', 'op', 'a', 'b')
    def __repr__(s):
        return show(s, 4)

NODES = []
_tab = {}

def _mk(op, a=None, b=None):
    k = (op, a.id if isinstance(a, Node) else a, b.id if isinstance(b, Node) else b)
    n = _tab.get(k)
    if n is None:
        n = Node()
        n.id = len(NODES); n.op = op; n.a = a; n.b = b
        NODES.append(n)
        _tab[k] = n
    return n

GROUND = {}
def reset():
    global _dcache
    NODES.clear(); _tab.clear(); _dcache = {}; GROUND.clear()
    global ZERO, ONE, MONE, PI
    ZERO = const(0); ONE = const(1); MONE = const(-1); PI = _mk('pi')

def const(q):
    if not isinstance(q, Fraction):
        q = Fraction(q)
    return _mk('const', q)

def var(name):
    return _mk('var', name)

def zvar(name):
    """a perturbation input: its value is 0, it exists to be differentiated with respect to"""
    return _mk('var', '\0' + name)

def iszvar(m): return m.a[0] == '\0'

def add(x, y):
    if x.op == 'const':
        if y.op == 'const': return const(x.a + y.a)
        if x.a == 0: return y
    elif y.op == 'const' and y.a == 0: return x
    if x.id > y.id: x, y = y, x
    return _mk('add', x, y)

def sub(x, y):
    if x is y: return ZERO
    if y.op == 'const':
        if x.op == 'const': return const(x.a - y.a)
        if y.a == 0: return x
    if x.op == 'const' and x.a == 0: return neg(y)
    return _mk('sub', x, y)

def neg(x):
    if x.op == 'const': return const(-x.a)
    if x.op == 'neg': return x.a
    return _mk('neg', x)

def mul(x, y):
    if x.op == 'const':
        if y.op == 'const': return const(x.a * y.a)
        if x.a == 0: return x
        if x.a == 1: return y
        if x.a == -1: return neg(y)
    elif y.op == 'const':
        if y.a == 0: return y
        if y.a == 1: return x
        if y.a == -1: return neg(x)
    if x.id > y.id: x, y = y, x
    return _mk('mul', x, y)

def div(x, y):
    if y.op == 'const':
        if y.a != 0:
            if x.op == 'const': return const(x.a / y.a)
            return mul(x, const(1 / y.a))
        return _mk('undef', 'div0')
    if x.op == 'const' and x.a == 0: return x
    return _mk('div', x, y)

def _isq(n):
    r = math.isqrt(n)
    return r if r * r == n else None

def sqrt(x):
    if x.op == 'const' and x.a >= 0:
        a = _isq(x.a.numerator); b = _isq(x.a.denominator)
        if a is not None and b is not None:
            return const(Fraction(a, b))
    if x.op == 'mul' and x.a is x.b: return _mk('abs', x.a.a if x.a.op == 'neg' else x.a)
    return _mk('sqrt', x)

def fn1(name, x):
    if x.op == 'const':
        if name in ('sin', 'asin', 'atan', 'tan', 'sinh') and x.a == 0: return ZERO
        if name in ('cos', 'exp', 'cosh') and x.a == 0: return ONE
        if name == 'log' and x.a == 1: return ZERO
        if name == 'floor': return const(math.floor(x.a))
        if name == 'ceil': return const(math.ceil(x.a))
        if name == 'acos' and x.a == 1: return ZERO
        if name == 'acos' and x.a == -1: return PI
    if name == 'sqrt': return sqrt(x)
    if name == 'tan': return div(fn1('sin', x), fn1('cos', x))
    if name in ('sin', 'cos') and x.op in ('acos', 'asin'):
        if (name == 'sin') == (x.op == 'asin'): return x.a
        return sqrt(sub(ONE, mul(x.a, x.a)))
    if name in ('sin', 'cos') and x.op == 'neg':
        r = fn1(name, x.a)
        return neg(r) if name == 'sin' else r
    return _mk(name, x)

def powi(x, n):
    if n == 0: return ONE
    if n < 0: return div(ONE, powi(x, -n))
    r = None
    b = x
    while n:
        if n & 1: r = b if r is None else mul(r, b)
        n >>= 1
        if n: b = mul(b, b)
    return r

def pow_(x, y):
    if y.op == 'const':
        q = y.a
        if q.denominator == 1 and abs(q) <= 64: return powi(x, int(q))
        if q.denominator == 2 and abs(q) <= 32: return powi(sqrt(x), int(q * 2))
        if q.denominator == 3: return powi(_mk('cbrt', x), int(q * 3))
    if x.op == 'const' and x.a == 1: return ONE
    return _mk('pow', x, y)

def atan2(y, x):
    if y.op == 'const' and y.a == 0 and x.op == 'const' and x.a > 0: return ZERO
    return _mk('atan2', y, x)

# ------------------------------------------------------------ literals
def simplest(lo, hi):
    """simplest fraction in [lo,hi], 0<lo"""
    fl = math.floor(lo)
    if fl == lo: return Fraction(fl)
    if fl + 1 <= hi: return Fraction(fl + 1)
    r = simplest(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r

_litcache = {}
def literal(d, bits=64):
    key = (d, bits)
    r = _litcache.get(key)
    if r is not None and r[0] == len(_litcache) and False: return r
    if isinstance(d, Fraction): return const(d)
    if d != d: return _mk('undef', 'nan')
    if d in (float('inf'), float('-inf')): return _mk('inf', 1 if d > 0 else -1)
    if d == 0: return ZERO
    s = -1 if d < 0 else 1
    x = abs(d)
    e = Fraction(x)
    if bits == 64:
        h = Fraction(math.ulp(x)) / 2
    else:
        h = Fraction(2) ** (math.frexp(x)[1] - 25)
    if e.denominator == 1 and e.numerator < 10 ** 15: return const(s * e)
    if bits == 32:
        pi = Fraction(3141592653589793238462643383279502884197, 10 ** 39)
        q = simplest((e - 2 * h) / pi, (e + 2 * h) / pi)
        if q.denominator <= 16 and q.numerator <= 32: return mul(const(s * q), PI)
    q = simplest(e - h, e + h)
    if q.denominator <= (20000 if bits == 64 else 500) and q.numerator <= 10 ** 7: return const(s * q)
    # short decimal
    if bits == 64:
        rp = repr(x)
        f = Fraction(rp)
    else:
        rp = str(np.float32(x)); f = Fraction(rp)
    dig = rp.split('e')[0].replace('.', '').strip('0')
    if len(dig) <= (10 if bits == 64 else 5): return const(s * f)
    tol = Fraction(2, 10 ** 15) if bits == 64 else Fraction(2, 10 ** 7)
    pi = Fraction(3141592653589793238462643383279502884197, 10 ** 39)
    for base, isp in ((pi, True),):
        r = e / base
        q = simplest(r * (1 - tol), r * (1 + tol))
        if q.denominator <= 360 and q.numerator <= 10000:
            return mul(const(s * q), PI)
    r = e * e
    tol2 = tol * 10
    q = simplest(r * (1 - tol2), r * (1 + tol2))
    if q.denominator <= 200 and q.numerator <= 2000:
        return mul(const(s), sqrt(const(q)))
    return const(s * e)

# ------------------------------------------------------------ derivative
_dcache = {}
def deriv(n, v):
    """d n / d v by forward mode on the DAG"""
    order = topo([n])
    D = _dcache.setdefault(v.id, {})
    for m in order:
        if m.id in D: continue
        op = m.op
        if m is v: r = ONE
        elif op in ('const', 'var', 'pi', 'undef', 'inf'): r = ZERO
        else:
            a = m.a
            da = D[a.id]
            if op in ('add', 'sub', 'mul', 'div', 'atan2', 'pow'):
                b = m.b; db = D[b.id]
                if op == 'add': r = add(da, db)
                elif op == 'sub': r = sub(da, db)
                elif op == 'mul': r = add(mul(da, b), mul(a, db))
                elif op == 'div':
                    r = ZERO if (da is ZERO and db is ZERO) else div(sub(da, mul(m, db)), b)
                elif op == 'atan2':
                    r = ZERO if (da is ZERO and db is ZERO) else div(sub(mul(da, b), mul(a, db)), add(mul(a, a), mul(b, b)))
                else: raise Unsupported('d pow')
            elif da is ZERO: r = ZERO
            elif op == 'neg': r = neg(da)
            elif op == 'sqrt': r = div(da, mul(const(2), m))
            elif op == 'cbrt': r = div(da, mul(const(3), mul(m, m)))
            elif op == 'sin': r = mul(fn1('cos', a), da)
            elif op == 'cos': r = neg(mul(fn1('sin', a), da))
            elif op == 'exp': r = mul(m, da)
            elif op == 'log': r = div(da, a)
            elif op == 'acos': r = neg(div(da, sqrt(sub(ONE, mul(a, a)))))
            elif op == 'asin': r = div(da, sqrt(sub(ONE, mul(a, a))))
            elif op == 'atan': r = div(da, add(ONE, mul(a, a)))
            elif op == 'sinh': r = mul(fn1('cosh', a), da)
            elif op == 'cosh': r = mul(fn1('sinh', a), da)
            else: raise Unsupported('deriv of ' + op)
        D[m.id] = r
    return D[n.id]

def topo(roots, stop=None):
    seen = set()
    st = list(roots)
    while st:
        m = st.pop()
        if m.id in seen: continue
        seen.add(m.id)
        if stop is not None and m.id in stop: continue
        a = m.a
        if isinstance(a, Node): st.append(a)
        b = m.b
        if isinstance(b, Node): st.append(b)
    return [NODES[i] for i in sorted(seen)]

def leaves(roots):
    return [m for m in topo(roots) if m.op == 'var']

def show(n, depth=3):
    if n.op == 'const': return str(n.a)
    if n.op == 'var': return str(n.a)
    if depth == 0: return '..'
    r = [show(x, depth - 1) if isinstance(x, Node) else str(x) for x in (n.a, n.b) if x is not None]
    sym = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}.get(n.op)
    if sym: return '(' + (' ' + sym + ' ').join(r) + ')'
    return n.op + '(' + ', '.join(r) + ')'

# ------------------------------------------------------------ linear angle forms
def angle_form(n):
    """n = sum q_i atom_i + qpi*pi ; returns (dict atom->Fraction, qpi)"""
    out = {}
    qpi = Fraction(0)
    st = [(n, Fraction(1))]
    while st:
        m, q = st.pop()
        if m.op == 'add': st += [(m.a, q), (m.b, q)]
        elif m.op == 'sub': st += [(m.a, q), (m.b, -q)]
        elif m.op == 'neg': st.append((m.a, -q))
        elif m.op == 'pi': qpi += q
        elif m.op == 'mul' and m.a.op == 'const': st.append((m.b, q * m.a.a))
        elif m.op == 'mul' and m.b.op == 'const': st.append((m.a, q * m.b.a))
        elif m.op == 'const' and m.a == 0: pass
        elif m.op == 'mul' and m.a.op in ('add', 'sub', 'neg'):
            x = m.a
            if x.op == 'neg': st.append((mul(x.a, m.b), -q))
            else: st += [(mul(x.a, m.b), q), (mul(x.b, m.b), q if x.op == 'add' else -q)]
        elif m.op == 'mul' and m.b.op in ('add', 'sub', 'neg'):
            x = m.b
            if x.op == 'neg': st.append((mul(x.a, m.a), -q))
            else: st += [(mul(x.a, m.a), q), (mul(x.b, m.a), q if x.op == 'add' else -q)]
        else: out[m] = out.get(m, Fraction(0)) + q
    return {k: v for k, v in out.items() if v}, qpi

# ------------------------------------------------------------ finite field evaluation
def _isprime(n):
    if n < 2: return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0: return n == q
    d = n - 1; s = 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True

def pick_prime(rng):
    while True:
        # p = -1 mod 840: square roots by exponent, unique cube roots, and
        # 2, 3, 5, 7 (hence their products) are squares, so sqrt(k*k*x) = k*sqrt(x)
        p = rng.randrange(2 ** 30, 2 ** 31 - 1000) // 840 * 840 + 839
        if _isprime(p): return p

class Field:
    """evaluates DAG nodes at P random points over F_p; valid[] masks points at
    which a square root does not exist or a denominator vanishes"""
    def __init__(self, P, seed, subst=None):
        self.P = P
        self.rng = random.Random(seed)
        self.p = pick_prime(self.rng)
        self.np = np.random.default_rng(self.rng.getrandbits(63))
        self.val = {}
        self.ok = {}
        self.ang = {}
        self.subst = subst or {}

    def rnd(self):
        return self.np.integers(1, self.p, size=self.P, dtype=np.uint64)

    def powm(self, x, e):
        p = np.uint64(self.p)
        r = None
        b = x
        while e:
            if e & 1: r = b if r is None else (r * b) % p
            e >>= 1
            if e: b = (b * b) % p
        return r if r is not None else np.ones(self.P, dtype=np.uint64)

    def inv(self, x):
        return self.powm(x, self.p - 2)

    def cst(self, q):
        p = self.p
        if q.denominator % p == 0: raise Unsupported('const mod p')
        return np.full(self.P, q.numerator % p * pow(q.denominator, -1, p) % p, dtype=np.uint64)

    def sqrtm(self, x):
        p = np.uint64(self.p)
        r = self.powm(x, (self.p + 1) // 4)
        return r, (r * r) % p == x

    def _unit(self):
        """random point on the unit circle"""
        p = np.uint64(self.p)
        t = self.rnd()
        t2 = (t * t) % p
        one = np.uint64(1)
        d = (t2 + one) % p
        ok = d != 0
        iv = self.inv(d)
        c = ((one + p - t2) % p * iv) % p
        s = (np.uint64(2) * t % p * iv) % p
        return (c, s), ok

    def _cmul(self, x, y):
        p = np.uint64(self.p)
        c = (x[0] * y[0] % p + p - x[1] * y[1] % p) % p
        s = (x[0] * y[1] % p + x[1] * y[0] % p) % p
        return c, s

    def _cpow(self, x, n):
        if n < 0:
            x = (x[0], (np.uint64(self.p) - x[1]) % np.uint64(self.p)); n = -n
        r = None
        while n:
            if n & 1: r = x if r is None else self._cmul(r, x)
            n >>= 1
            if n: x = self._cmul(x, x)
        if r is None:
            return np.ones(self.P, dtype=np.uint64), np.zeros(self.P, dtype=np.uint64)
        return r

    def _and(self, a, b):
        if a is None: return b
        if b is None: return a
        return a & b

    def cis(self, n):
        """(cos n, sin n), ok"""
        f, qpi = angle_form(n)
        ok = None
        r = (np.ones(self.P, dtype=np.uint64), np.zeros(self.P, dtype=np.uint64))
        if qpi:
            k = qpi * 2
            if k.denominator == 1:
                k = int(k) % 4
                one = np.ones(self.P, dtype=np.uint64); z = np.zeros(self.P, dtype=np.uint64)
                m1 = np.full(self.P, self.p - 1, dtype=np.uint64)
                r = [(one, z), (z, one), (m1, z), (z, m1)][k]
            elif k.denominator == 2:
                s2, o = self.sqrtm(self.cst(Fraction(1, 2)))
                ok = o
                r = self._cpow((s2, s2), int(k * 2) % 8)
            elif (k * 3).denominator in (1,):
                s3, o = self.sqrtm(self.cst(Fraction(3, 4)))
                ok = o
                r = self._cpow((s3, self.cst(Fraction(1, 2))), int(k * 3) % 12)
            else:
                raise Unsupported('angle pi*%s' % qpi)
        for at, q in f.items():
            base, N, o = self.atom(at, q.denominator)
            e = q * N
            if e.denominator != 1: raise Unsupported('angle fraction %s' % q)
            r = self._cmul(r, self._cpow(base, int(e)))
            ok = self._and(ok, o)
        return r, ok

    def atom(self, at, den=1):
        """(cos, sin) of at/N, N, mask"""
        half = den == 2 and at.op in ('asin', 'atan2', 'atan')
        x = self.ang.get((at.id, half))
        if x is not None: return x
        p = np.uint64(self.p)
        one = np.uint64(1)
        if at.op == 'acos':
            c = self.ev(at.a); ok = self.ok[at.a.id]
            # half angle, works for integer multiples as well
            iv2 = self.cst(Fraction(1, 2))
            ch, o1 = self.sqrtm((one + c) % p * iv2 % p)
            sh, o2 = self.sqrtm((one + p - c) % p * iv2 % p)
            x = ((ch, sh), 2, self._and(ok, o1 & o2))     # acos(c)/2
        elif at.op in ('asin', 'atan2', 'atan'):
            if at.op == 'asin':
                s = self.ev(at.a); ok = self.ok[at.a.id]
                c, o = self.sqrtm((one + p - s * s % p) % p)
            else:
                if at.op == 'atan2':
                    y, xx = self.ev(at.a), self.ev(at.b)
                    ok = self._and(self.ok[at.a.id], self.ok[at.b.id])
                else:
                    y, xx = self.ev(at.a), np.ones(self.P, dtype=np.uint64)
                    ok = self.ok[at.a.id]
                h, o = self.sqrtm((xx * xx % p + y * y % p) % p)
                o = o & (h != 0)
                ih = self.inv(h)
                c, s = xx * ih % p, y * ih % p
            ok = self._and(ok, o)
            if half:     # the half angle lies in [-pi/2, pi/2]: its cosine is non-negative
                ch, o = self.sqrtm((one + c) % p * self.cst(Fraction(1, 2)) % p)
                o = o & (ch != 0)
                sh = s * self.cst(Fraction(1, 2)) % p * self.inv(ch) % p
                x = ((ch, sh), 2, self._and(ok, o))
            else: x = ((c, s), 1, ok)
        else:
            v = self.ev(at)
            key = v.tobytes()
            if key not in self.ang: self.ang[key] = self._unit()
            b, o = self.ang[key]
            x = (b, 24, self._and(o, self.ok[at.id]))
        self.ang[(at.id, half)] = x
        return x

    def ev(self, n):
        V = self.val
        if n.id in V: return V[n.id]
        p = np.uint64(self.p)
        OK = self.ok
        for m in topo([n], V):
            if m.id in V: continue
            op = m.op
            ok = None
            a = m.a; b = m.b
            if isinstance(a, Node): ok = OK[a.id]
            if isinstance(b, Node): ok = self._and(ok, OK[b.id])
            if op == 'const': r = self.cst(a)
            elif op == 'var':
                if m.a[0] == '\0':
                    r = self.cst(Fraction(0))
                elif m.id in self.subst:
                    r = self.cst(self.subst[m.id])
                else:
                    r = self.rnd()
            elif op == 'pi': r = self.rnd()
            elif op == 'add': r = (V[a.id] + V[b.id]) % p
            elif op == 'sub': r = (V[a.id] + p - V[b.id]) % p
            elif op == 'mul': r = (V[a.id] * V[b.id]) % p
            elif op == 'neg': r = (p - V[a.id]) % p
            elif op == 'div':
                y = V[b.id]
                nz = y != 0
                if not nz.all(): ok = self._and(ok, nz)
                r = (V[a.id] * self.inv(y)) % p
            elif op == 'sqrt':
                r, o = self.sqrtm(V[a.id])
                ok = self._and(ok, o)
            elif op == 'abs':
                y, _ = self.sqrtm(V[a.id] * V[a.id] % p)
                r = y
            elif op == 'cbrt':
                # p = 2 mod 3: unique cube root x^(1/3 mod p-1)
                r = self.powm(V[a.id], pow(3, -1, self.p - 1))
            elif op in ('sin', 'cos'):
                (c, s), o = self.cis(a)
                ok = self._and(ok, o)
                r = c if op == 'cos' else s
            elif op == 'exp':
                f, qpi = angle_form(a)
                r = np.ones(self.P, dtype=np.uint64)
                for at, q in f.items():
                    e = q * 12
                    if e.denominator != 1: raise Unsupported('exp frac')
                    key = ('e', self.ev(at).tobytes())
                    if key not in self.ang: self.ang[key] = self.rnd()
                    k = int(e)
                    x = self.powm(self.ang[key], abs(k))
                    if k < 0: x = self.inv(x)
                    r = r * x % p
                if qpi: raise Unsupported('exp pi')
            elif op in ('acos', 'asin', 'atan', 'atan2', 'log', 'pow', 'sinh', 'cosh') or op[:3] == 'un_':
                key = (op, V[a.id].tobytes(), V[b.id].tobytes() if isinstance(b, Node) else None)
                if key not in self.ang: self.ang[key] = self.rnd()
                r = self.ang[key]
            else:
                raise Unsupported('field eval ' + op)
            V[m.id] = r
            OK[m.id] = ok
        return V[n.id]

# ------------------------------------------------------------ numeric evaluation (float64 / longdouble)
def num_eval(nodes, env, P, dtype=np.float64):
    """env: var node id -> array"""
    V = {}
    one = np.ones(P, dtype=dtype)
    with np.errstate(all='ignore'):
        for m in topo(nodes):
            op = m.op; a = m.a; b = m.b
            if op == 'const':
                r = dtype(a.numerator) / dtype(a.denominator) if max(abs(a.numerator), a.denominator) < 2 ** 60 else dtype(float(a))
                r = one * r
            elif op == 'var': r = one * 0 if m.a[0] == '\0' else env[m.id]
            elif op == 'pi': r = one * dtype(np.pi)
            elif op == 'add': r = V[a.id] + V[b.id]
            elif op == 'sub': r = V[a.id] - V[b.id]
            elif op == 'mul': r = V[a.id] * V[b.id]
            elif op == 'neg': r = -V[a.id]
            elif op == 'div': r = V[a.id] / V[b.id]
            elif op == 'sqrt': r = np.sqrt(V[a.id])
            elif op == 'abs': r = np.abs(V[a.id])
            elif op == 'cbrt': r = np.cbrt(V[a.id])
            elif op == 'sin': r = np.sin(V[a.id])
            elif op == 'cos': r = np.cos(V[a.id])
            elif op == 'exp': r = np.exp(V[a.id])
            elif op == 'log': r = np.log(V[a.id])
            elif op == 'acos': r = np.arccos(V[a.id])
            elif op == 'asin': r = np.arcsin(V[a.id])
            elif op == 'atan': r = np.arctan(V[a.id])
            elif op == 'sinh': r = np.sinh(V[a.id])
            elif op == 'cosh': r = np.cosh(V[a.id])
            elif op == 'atan2': r = np.arctan2(V[a.id], V[b.id])
            elif op == 'pow': r = np.power(V[a.id], V[b.id])
            elif op == 'floor': r = np.floor(V[a.id])
            elif op == 'ceil': r = np.ceil(V[a.id])
            elif op == 'inf': r = one * (np.inf * a)
            elif op == 'un_ftr': r = V[a.id].astype(np.float32).astype(dtype)
            else: r = one * np.nan
            V[m.id] = r
    return V

# ------------------------------------------------------------ high precision evaluation at one point
class HPError(Exception): pass

def hp_eval(nodes, env, digits=70):
    """env: var node id -> Fraction/float/mpf; exact-real evaluation to ~digits"""
    import mpmath
    from mpmath import mp, mpf
    mp.dps = digits
    V = {}
    for m in topo(nodes):
        op = m.op; a = m.a; b = m.b
        try:
            if op == 'const': r = mpf(a.numerator) / mpf(a.denominator)
            elif op == 'var':
                x = 0 if m.a[0] == '\0' else env[m.id]
                r = mpf(x.numerator) / mpf(x.denominator) if isinstance(x, Fraction) else mpf(x)
            elif op == 'pi': r = mp.pi + 0
            elif op == 'add': r = V[a.id] + V[b.id]
            elif op == 'sub': r = V[a.id] - V[b.id]
            elif op == 'mul': r = V[a.id] * V[b.id]
            elif op == 'neg': r = -V[a.id]
            elif op == 'div': r = V[a.id] / V[b.id]
            elif op == 'abs': r = abs(V[a.id])
            elif op == 'sqrt':
                if V[a.id] < 0: raise HPError('sqrt of a negative number')
                r = mpmath.sqrt(V[a.id])
            elif op == 'cbrt': x = V[a.id]; r = mpmath.cbrt(abs(x)) * (1 if x >= 0 else -1)
            elif op in ('sin', 'cos', 'exp', 'log', 'acos', 'asin', 'atan', 'sinh', 'cosh', 'floor', 'ceil'):
                r = getattr(mpmath, op)(V[a.id])
            elif op == 'atan2': r = mpmath.atan2(V[a.id], V[b.id])
            elif op == 'pow': r = mpmath.power(V[a.id], V[b.id])
            elif op == 'un_ftr': r = mpf(float(np.float32(float(V[a.id]))))
            else: raise HPError(op)
            if isinstance(r, mpmath.mpc): raise HPError('complex')
        except (ZeroDivisionError, ValueError, KeyError, OverflowError) as e:
            raise HPError(str(e))
        V[m.id] = r
    return V

def ground_iv(d):
    """enclosing interval (60 digits, outward rounding) of a term without variables, None if it has one"""
    from mpmath import iv
    iv.dps = 60
    V = {}
    for m in topo([d]):
        g = GROUND.get(m.id, 0)
        if g == 0:
            op = m.op; a = m.a; b = m.b; g = None
            try:
                if op == 'const': g = iv.mpf(a.numerator) / iv.mpf(a.denominator)
                elif op == 'pi': g = +iv.pi
                elif isinstance(a, Node) and V[a.id] is not None and (not isinstance(b, Node) or V[b.id] is not None):
                    x = V[a.id]; y = V[b.id] if isinstance(b, Node) else None
                    if op == 'add': g = x + y
                    elif op == 'sub': g = x - y
                    elif op == 'mul': g = x * y
                    elif op == 'neg': g = -x
                    elif op == 'div' and not 0 in y: g = x / y
                    elif op == 'abs': g = abs(x)
                    elif op == 'sqrt' and x.a >= 0: g = iv.sqrt(x)
                    elif op in ('sin', 'cos'): g = getattr(iv, op)(x)
            except (ValueError, ZeroDivisionError, NotImplementedError, TypeError): g = None
            GROUND[m.id] = g
        V[m.id] = g
    return V[d.id]

def ground_false(op, d):
    """the fact 'd op 0' is about a term without variables and does not hold"""
    if d.op == 'var': return False
    g = ground_iv(d)
    if g is None: return False
    lo, hi = g.a, g.b
    if op == 'lt': return bool(lo >= 0)
    if op == 'le': return bool(lo > 0)
    if op == 'gt': return bool(hi <= 0)
    if op == 'ge': return bool(hi < 0)
    if op == 'eq': return bool(lo > 0 or hi < 0)
    return False

reset()
