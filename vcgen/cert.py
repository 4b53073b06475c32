"""Linear certificates: terms are expressed over a basis of linearly independent
terms (found and confirmed over prime fields, small rational coefficients); the
conjunction is then decided by z3 linear arithmetic over the basis.  Level 2 adds
pairwise products of the signed facts and of syntactically non-negative subterms."""
import itertools
from fractions import Fraction
import numpy as np
import z3
import dag
from dag import Unsupported
from execu import ratrec, nonneg

EXTRA = 24

def rref(M, p):
    """M: rows = points, columns = terms -> pivot columns, matrix R (len(piv) x ncol)"""
    p64 = np.uint64(p)
    M = M.copy() % p64
    r = 0; piv = []
    nr, nc = M.shape
    for c in range(nc):
        if r >= nr: break
        nz = np.nonzero(M[r:, c])[0]
        if not len(nz): continue
        k = r + int(nz[0])
        if k != r: M[[r, k]] = M[[k, r]]
        iv = np.uint64(pow(int(M[r, c]), p - 2, p))
        M[r] = M[r] * iv % p64
        f = M[:, c].copy(); f[r] = 0
        w = np.nonzero(f)[0]
        if len(w): M[w] = (M[w] + (p64 - f[w])[:, None] * M[r][None, :] % p64) % p64
        piv.append(c); r += 1
    return piv, M[:r]

def strip(d):
    """d = al*core + be (core None for constants)"""
    al = Fraction(1); be = Fraction(0)
    while True:
        op = d.op
        if op == 'const': return None, Fraction(0), be + al * d.a
        if op == 'neg': al = -al; d = d.a
        elif op == 'mul' and d.a.op == 'const': al *= d.a.a; d = d.b
        elif op == 'mul' and d.b.op == 'const': al *= d.b.a; d = d.a
        elif op == 'add' and d.a.op == 'const': be += al * d.a.a; d = d.b
        elif op == 'add' and d.b.op == 'const': be += al * d.b.a; d = d.a
        elif op == 'sub' and d.b.op == 'const': be -= al * d.b.a; d = d.a
        elif op == 'sub' and d.a.op == 'const': be += al * d.a.a; al = -al; d = d.b
        elif op == 'div' and d.b.op == 'const': al /= d.b.a; d = d.a
        else: return d, al, be

class Cert:
    def __init__(s, P): s.P = P

    def columns(s, nodes, sub, salt, need, pos=()):
        """values of nodes at common valid points -> (prime, list of vectors) or None"""
        for P in (256, 1024, 16384):
            f = s.P.field(P, sub, salt)
            ok = None; vs = []
            for n in nodes:
                vs.append(f.ev(n)); ok = f._and(ok, f.ok[n.id])
            if pos: ok = f._and(ok, s.P.residues(f, pos))
            if ok is None: return f.p, [v[:need] for v in vs]
            idx = np.nonzero(ok)[0]
            if len(idx) >= need: return f.p, [v[idx[:need]] for v in vs]
        return None

    def pool(s, roots, limit):
        """non-negative subterms, roots of squares first"""
        seen = []; 
        for m in dag.topo(roots):
            if m.op == 'mul' and m.a is not m.b and nonneg(m): seen.append(m)
        for m in dag.topo(roots):
            if m.op in ('sqrt', 'abs'): seen.append(m)
        for m in dag.topo(roots):
            if m.op == 'mul' and m.a is m.b: seen.append(m)
        out = []
        for m in seen:
            if m not in out: out.append(m)
            if len(out) >= limit: break
        return out

    def unsat(s, facts, level=1, maxprod=140):
        """True if the conjunction of facts is certainly infeasible"""
        facts = [(o, d) for o, d in facts if d.op not in ('undef', 'inf')]
        if not facts: return False
        try: return s._unsat(facts, level, maxprod)
        except Unsupported: return False

    def _unsat(s, facts, level, maxprod):
        sub = s.P.subst_of(facts)
        base = []; ix = {}
        def col(n):
            if n.id not in ix: ix[n.id] = len(base); base.append(n)
            return ix[n.id]
        def aff(d):                      # {term tuple: coefficient}; () is 1
            c, al, be = strip(d)
            r = {(): be} if be else {}
            if c is not None: r[(col(c),)] = al
            return r
        rel = []; seen = set()
        for o, d in facts:
            if (o, d.id) in seen: continue
            seen.add((o, d.id)); rel.append((o, aff(d)))
            if d.op == 'sub' and o in ('lt', 'le', 'gt', 'ge'):   # sqrt is monotone
                def sqr(x): return x.a if x.op == 'sqrt' else dag.const(x.a * x.a) if x.op == 'const' and x.a >= 0 else None
                x, y = sqr(d.a), sqr(d.b)
                if x is not None and y is not None: rel.append((o, aff(dag.sub(x, y))))
        roots = [base[c] for c in range(len(base))]
        cons = list(rel)
        for m in dag.topo(roots):        # |x| >= x, |x| >= -x
            if m.op == 'abs' and len(cons) < 200:
                x = aff(m.a); c = (col(m),)
                for k in (1, -1):
                    r = {t: k * q for t, q in x.items()}; r[c] = r.get(c, 0) + 1
                    cons.append(('ge', r))
            lo = hi = None
            if m.op == 'pi': lo, hi = (None, Fraction(31415, 10000)), (None, Fraction(31416, 10000))
            elif m.op == 'atan2': lo, hi = (-1, 0), (1, 0)
            elif m.op == 'acos': lo, hi = (0, 0), (1, 0)
            elif m.op in ('asin', 'atan'): lo, hi = (Fraction(-1, 2), 0), (Fraction(1, 2), 0)
            elif m.op in ('sin', 'cos'): lo, hi = (0, -1), (0, 1)
            if lo and len(cons) < 200:
                c = (col(m),)
                for b, k in ((lo, 1), (hi, -1)):     # k*(m - b) >= 0, b = b0*pi + b1
                    r = {c: Fraction(k)}
                    if b[1]: r[()] = Fraction(-k) * b[1]
                    if b[0]: r[(col(dag.PI),)] = Fraction(-k) * b[0]
                    cons.append(('ge', r))
        if level >= 2: ps = s.pool(roots, 14)
        else: ps = [m for m in dag.topo(roots) if m.op == 'sqrt'][:40]
        pos = [aff(m) for m in ps]
        for r in pos: cons.append(('ge', r))
        if level >= 2:
            # latest facts (the negated goal) take part in products first
            sg = []
            for o, r in reversed(rel):
                if o in ('lt', 'le'): sg.append(({t: -q for t, q in r.items()}, o == 'lt'))
                elif o in ('gt', 'ge'): sg.append((r, o == 'gt'))
            sg += [(r, False) for r in pos]
            prods = sorted(itertools.combinations_with_replacement(range(len(sg)), 2), key=lambda ij: ij[0] + ij[1])[:maxprod]
            for i, j in prods:
                a, b = sg[i], sg[j]; r = {}
                for t, q in a[0].items():
                    for u, w in b[0].items():
                        k = tuple(sorted(t + u)); r[k] = r.get(k, 0) + q * w
                cons.append(('gt' if a[1] and b[1] else 'ge', r))
        terms = []; tix = {(): 0}
        for o, r in cons:
            for t in r:
                if t not in tix: tix[t] = len(terms) + 1; terms.append(t)
        n = len(terms) + 1
        need = n + EXTRA
        if not base: return any(not {'lt': r.get((), 0) < 0, 'le': r.get((), 0) <= 0, 'gt': r.get((), 0) > 0, 'ge': r.get((), 0) >= 0, 'eq': r.get((), 0) == 0, 'ne': r.get((), 0) != 0}[o] for o, r in cons)
        pos = s.P.posfacts(base, facts, 4)
        r = s.columns(base, sub, 0, need, pos)
        if r is None and pos: pos = (); r = s.columns(base, sub, 0, need)
        if r is None: return False
        p, vs = r
        def build(p, vs):
            p64 = np.uint64(p)
            M = np.ones((len(vs[0]), n), dtype=np.uint64)
            for i, t in enumerate(terms):
                v = vs[t[0]]
                for c in t[1:]: v = v * vs[c] % p64
                M[:, i + 1] = v
            return M
        M = build(p, vs)
        piv, R = rref(M, p)
        if len(piv) == n: combos = {}
        else:
            combos = {}
            ps = set(piv)
            for c in range(n):
                if c in ps: continue
                cf = []
                for i, k in enumerate(piv):
                    x = int(R[i, c])
                    if x:
                        q = ratrec(x, p, 1 << 14)
                        if q is None: cf = None; break
                        cf.append((k, q))
                if cf is not None: combos[c] = cf
            # confirm over two further primes
            for salt in (1, 2):
                if not combos: break
                r2 = s.columns(base, sub, salt, 48, pos)
                if r2 is None: combos = {}; break
                p2, vs2 = r2
                M2 = build(p2, vs2)
                for c in list(combos):
                    acc = np.zeros(M2.shape[0], dtype=np.uint64)
                    for k, q in combos[c]:
                        cq = q.numerator % p2 * pow(q.denominator, -1, p2) % p2
                        acc = (acc + M2[:, k] * np.uint64(cq)) % np.uint64(p2)
                    if not (acc == M2[:, c]).all(): del combos[c]
        s.dbg = (n, len(piv), len(combos), len(cons))
        S = z3.SolverFor('QF_LRA')
        S.set('timeout', 2000)
        X = [z3.RealVal(1)] + [z3.Real('b%d' % i) for i in range(1, n)]
        def rv(q): return z3.RealVal(str(q))
        for c, cf in combos.items():
            e = z3.Sum([rv(q) * X[k] for k, q in cf]) if cf else z3.RealVal(0)
            if c == 0: continue
            X[c] = e
        zero = z3.RealVal(0)
        for o, r in cons:
            e = z3.Sum([rv(q) * X[tix[t]] for t, q in r.items() if q] or [zero])
            S.add({'lt': e < zero, 'le': e <= zero, 'gt': e > zero, 'ge': e >= zero, 'eq': e == zero, 'ne': e != zero}[o])
        return S.check() == z3.unsat
