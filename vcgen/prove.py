"""Discharge of obligations: finite-field identity testing, numeric refutation, z3."""
import time, math, zlib
from fractions import Fraction
import numpy as np
import z3
import dag
from dag import Node, Unsupported
import cert
from execu import Cond, NEG

MINPTS = 12        # points that must remain valid: error <= (deg/2^30)^MINPTS

class Prover:
    def __init__(s, seed, ztimeout=10000, opts=None):
        s.seed = seed; s.zt = ztimeout
        s.fields = {}
        s.opts = opts or {}
        s.samples = {}
        s.stats = {}
        s.pcache = {}
        s.solver_s = 0.0
        s.cert = cert.Cert(s); s.certcache = {}

    # ---- identity testing
    def field(s, P, subst=(), salt=0):
        k = (P, subst, salt)
        f = s.fields.get(k)
        if f is None:
            if subst: 
                for kk in [q for q in s.fields if q[1] and q[1] != subst]: del s.fields[kk]
            f = s.fields[k] = dag.Field(P, 1000003 * s.seed + P + 77777 * salt, dict(subst))
        return f

    def subst_of(s, facts):
        """equality facts  al*v+be == 0 on an input variable"""
        sub = {}
        for op, d in facts:
            if op != 'eq': continue
            lv = linear_single(d)
            if lv: sub[lv[0].id] = lv[1]
        return tuple(sorted(sub.items()))

    def pit(s, a, b, facts):
        """True proved / False differs / None undecided"""
        sub = s.subst_of(facts)
        ck = (a.id, b.id, sub)
        r = s.pcache.get(ck)
        if r is None: r = s.pcache[ck] = s._pit(a, b, sub)
        return r

    def posfacts(s, roots, facts, limit=6):
        """sign facts usable to fix the sign of square roots: over F_p with p = 3 mod 4 "positive"
        becomes "quadratic residue", so sqrt(k*k*x) = k*sqrt(x) holds at the points where k is one"""
        top = dag.topo(roots)
        if not any(m.op in ('sqrt', 'abs') for m in top): return ()
        vs = {m.id for m in top if m.op == 'var'}
        out = {}
        for o, d in facts:
            if o not in ('lt', 'le', 'gt', 'ge') or d.op in ('undef', 'inf', 'const'): continue
            t = dag.topo([d])
            if len(t) > 40: continue
            lv = [m.id for m in t if m.op == 'var']
            if not lv or not all(v in vs for v in lv): continue
            if any(m.op not in ('var', 'const', 'add', 'sub', 'mul', 'neg', 'div') for m in t): continue
            out.setdefault(d.id, (len(t), dag.neg(d) if o in ('lt', 'le') else d))
        return tuple(n for _, n in sorted(out.values(), key=lambda x: (x[0], x[1].id))[:limit])

    def residues(s, f, pos):
        m = None
        for d in pos:
            v = f.ev(d)
            m = f._and(m, f._and(f.ok[d.id], f.powm(v, (f.p - 1) // 2) <= 1))
        return m

    def pit_signed(s, a, b, facts):
        pos = s.posfacts([a, b], facts)
        if not pos: return False
        sub = s.subst_of(facts)
        try:
            for salt in (0, 1, 2):
                f = s.field(16384, sub, salt)
                va = f.ev(a); vb = f.ev(b)
                ok = f._and(f._and(f.ok[a.id], f.ok[b.id]), s.residues(f, pos))
                if int(ok.sum()) < 2 * MINPTS or not (va == vb)[ok].all(): return False
        except Unsupported: return False
        return True

    def _pit(s, a, b, sub, salt=0):
        for P in (64, 1024, 16384):
            try:
                f = s.field(P, sub, salt)
                va = f.ev(a); vb = f.ev(b)
            except Unsupported as e:
                return None, str(e)
            ok = f._and(f.ok[a.id], f.ok[b.id])
            if ok is None: ok = np.ones(P, dtype=bool)
            n = int(ok.sum())
            eq = (va == vb) | ~ok
            if not eq.all(): return False, ''
            if n >= MINPTS:
                if salt < 2: return s._pit(a, b, sub, salt + 1)    # confirm over further primes
                return True, 'identity over 3 prime fields' 
        return None, 'too few valid points'

    # ---- numeric sampling
    def sample(s, vars, style, P=2048):
        key = (style,)
        env = {}
        for v in vars:
            k = (v.id, style)
            x = s.samples.get(k)
            if x is None:
                r = np.random.default_rng([s.seed, v.id, style])
                if style == 0: x = r.normal(size=P)
                elif style == 1: x = r.uniform(-1, 1, size=P) * (10.0 ** r.uniform(-2, 1, size=P))
                elif style == 2: x = r.integers(-2, 3, size=P).astype(float)
                elif style == 3: x = np.where(r.random(P) < 0.3, 0.0, r.normal(size=P) * 2)
                elif style == 4: x = r.uniform(0, 1, size=P)
                elif style >= 6: x = s.sample_thin(v, style, P)
                else: x = r.integers(-8, 9, size=P) * 0.25
                s.samples[k] = x
            env[v.id] = x
        return env

    def sample_thin(s, v, style, P):
        """points near degenerate configurations: tiny/huge scales, nearly equal or opposite arrays"""
        r = np.random.default_rng([s.seed, v.id, style])
        k = v.a.rsplit('~', 1)
        idx = int(k[1]) if len(k) == 2 and k[1].isdigit() else 0
        def per(tag, f): return f(np.random.default_rng([s.seed, style, zlib.crc32(tag.encode())]))
        if style == 6: return r.normal(size=P) * 10.0 ** per('', lambda g: g.uniform(-12, 3, size=P))
        if style == 7: return r.normal(size=P) * 10.0 ** per(k[0], lambda g: g.uniform(-8, 3, size=P))
        if style in (8, 9):
            ref = per('ref%d' % idx, lambda g: g.normal(size=P))
            eps = 10.0 ** per('eps', lambda g: g.uniform(-9, 0, size=P))
            sg = 1.0 if style == 8 else per(k[0] + 's', lambda g: np.where(g.random(P) < 0.5, -1.0, 1.0) * 10.0 ** g.uniform(-1, 1, size=P))
            return ref * sg + eps * r.normal(size=P)
        if style == 10: return np.where(r.random(P) < 0.5, r.normal(size=P), 0.0) + 10.0 ** per('e', lambda g: g.uniform(-10, -1, size=P)) * r.normal(size=P)
        return 10.0 ** r.uniform(-10, 3, size=P) * np.where(r.random(P) < 0.5, -1.0, 1.0)

    def around(s, ob, models, bad, nodes):
        """perturb models of the path condition; -> (violating envs, satisfying envs)"""
        allv = [x[2] for x in ob.inputs if x[0] == 'r']
        roots = nodes + [d for _, d in ob.facts]
        P = 1024; hits = []; sat = []
        for k, m in enumerate(models):
            g = np.random.default_rng([s.seed, 99, k])
            sc = 10.0 ** g.uniform(-12, 0, size=P); sc[0] = 0
            env = {v.id: float(m.get(v.id, 0)) + sc * g.normal(size=P) * np.where(g.random(P) < 0.5, 1.0, abs(float(m.get(v.id, 0)))) for v in allv}
            h, ok = s.check_points(ob, roots, env, P, bad)
            hits += [{v.id: float(env[v.id][i]) for v in allv} for i in np.nonzero(h)[0][:4]]
            sat += [{v.id: float(env[v.id][i]) for v in allv} for i in np.nonzero(ok)[0][:6]]
        return hits, sat

    def check_points(s, ob, roots, env, P, bad):
        V = dag.num_eval(roots, env, P)
        m = np.ones(P, dtype=bool)
        with np.errstate(all='ignore'):
            for op, d in ob.facts:
                x = V[d.id]
                m &= {'lt': x < 0, 'le': x <= 0, 'gt': x > 0, 'ge': x >= 0, 'eq': x == 0, 'ne': x != 0}[op]
            return m & bad(V), m

    def exact_differs(s, ob, pts, limit=24):
        """an input at which the path condition holds and the sides differ, evaluated to 70 digits"""
        roots = [ob.a, ob.b] + [d for _, d in ob.facts]
        n = len(list(dag.topo(roots)))
        best = (0, None)
        k = max(1, min(limit, 400000 // max(n, 1)))
        if len(pts) > k: pts = [pts[i * len(pts) // k] for i in range(k)]
        for env in pts:
            try: V = dag.hp_eval(roots, env)
            except dag.HPError: continue
            def holds(op, x):
                if abs(x) < 1e-50: return op in ('le', 'ge', 'eq')
                return {'lt': x < 0, 'le': x <= 0, 'gt': x > 0, 'ge': x >= 0, 'eq': False, 'ne': True}[op]
            if not all(holds(op, V[d.id]) for op, d in ob.facts): continue
            a, b = V[ob.a.id], V[ob.b.id]
            d = abs(a - b) / (1 + abs(a) + abs(b))
            if d > 1e-30 and d > best[0]: best = (d, env)
        return best[1]

    def exactly(s, ob, hits):
        """the points whose path condition also holds when evaluated to 70 digits"""
        out = []
        for env in hits:
            try: V = dag.hp_eval([d for _, d in ob.facts], env)
            except dag.HPError: continue
            def holds(op, x):
                if abs(x) < 1e-50: return op in ('le', 'ge', 'eq')
                return {'lt': x < 0, 'le': x <= 0, 'gt': x > 0, 'ge': x >= 0, 'eq': False, 'ne': True}[op]
            if all(holds(op, V[d.id]) for op, d in ob.facts): out.append(env)
        return out

    def thin_search(s, ob, nodes, bad):
        """points of a thin path condition: degenerate samples and perturbed z3 models"""
        hits, anysat = s.refute(ob, nodes, bad, range(6, 12))
        sat = list(s.satpts)
        if not hits:
            st, mod = s.z3sat(ob, [], min(s.zt, 4000), anymodel=True)
            if st == 'unsat': return 'unsat', []
            if mod:
                hits, more = s.around(ob, mod, bad, nodes); sat += more
        return hits, sat

    def refute(s, ob, nodes, bad, maxstyles=6):
        """search a point where all facts hold and bad(V) holds -> list of envs"""
        roots = nodes + [d for _, d in ob.facts]
        vars = [v for v in dag.leaves(roots)]
        allv = [x[2] for x in ob.inputs if x[0] == 'r']
        hits = []
        anysat = False
        P = 2048
        s.satpts = []
        for style in (range(maxstyles) if isinstance(maxstyles, int) else maxstyles):
            env = s.sample(vars, style, P)
            V = dag.num_eval(roots, env, P)
            m = np.ones(P, dtype=bool)
            with np.errstate(all='ignore'):
                for op, d in ob.facts:
                    x = V[d.id]
                    m &= {'lt': x < 0, 'le': x <= 0, 'gt': x > 0, 'ge': x >= 0, 'eq': x == 0, 'ne': x != 0}[op]
                if m.any():
                    anysat = True
                    env2 = s.sample(allv, style, P)
                    for i in np.nonzero(m)[0][:4]: s.satpts.append({v.id: float(env2[v.id][i]) for v in allv})
                h = m & bad(V)
            idx = np.nonzero(h)[0]
            if len(idx):
                env2 = s.sample(allv, style, P)
                for i in idx[:6]:
                    hits.append({v.id: float(env2[v.id][i]) for v in allv})
            if len(hits) >= 8: break
        return hits, anysat

    # ---- z3
    def z3sat(s, ob, extra, timeout=None, anymodel=False):
        """extra: list of (op,node) facts; sat/unsat/unknown of facts+extra"""
        tr = ToZ3()
        S = z3.SolverFor('QF_NRA') if s.opts.get('nra') else z3.Solver()
        S.set('timeout', timeout or s.zt)
        S.set('random_seed', s.seed % 1000)
        try:
            for op, d in list(ob.facts) + list(extra): S.add(tr.fact(op, d))
        except Unsupported as e:
            return 'unknown', None
        for c in tr.side: S.add(c)
        t0 = time.time()
        try:
            r = S.check()
        except z3.Z3Exception:
            r = z3.unknown
        s.solver_s += time.time() - t0
        if r == z3.unsat: return 'unsat', None
        if r == z3.sat and (anymodel or not tr.approx):
            m = S.model()
            env = {}
            for v in [x[2] for x in ob.inputs if x[0] == 'r']:
                x = tr.memo.get(v.id)
                q = 0.0
                if x is not None:
                    e = m.eval(x, model_completion=True)
                    q = z3num(e)
                env[v.id] = q
            return 'sat', [env]
        return 'unknown', None

    def certified(s, ob, extra, levels=(1,)):
        """linear certificate that facts + one disjunct of extra (list of fact lists) is infeasible, for all disjuncts"""
        t0 = time.time()
        try:
            for fl in extra or [[]]:
                fs = list(ob.facts) + list(fl)
                if any(dag.ground_false(o, d) for o, d in fs): continue
                key = (tuple((o, d.id) for o, d in fs), levels)
                r = s.certcache.get(key)
                if r is None: r = s.certcache[key] = any(s.cert.unsat(fs, l) for l in levels)
                if not r: return False
            return True
        finally: s.solver_s += time.time() - t0

    def last_resort(s, ob, nodes, bad):
        h, sat = s.thin_search(ob, nodes, bad)
        if h and h != 'unsat' and ob.kind == 'false': h = s.exactly(ob, h)
        if h == 'unsat': ob.status = 'proved'; ob.info = 'z3-nra infeasible path'
        elif h: ob.status = 'refuted'; ob.model = h; ob.info = 'numeric refutation (thin path)'
        else: ob.status = 'unknown'; ob.info = 'z3 unknown'

    def discharge(s, ob):
        t0 = time.time()
        s._discharge(ob)
        ob.info += ' %.2fs' % (time.time() - t0)

    def _discharge(s, ob):
        if ob.status is not None: return
        if ob.kind == 'eq':
            a, b = ob.a, ob.b
            if a.op == 'undef' or b.op == 'undef':
                ob.status = 'unknown'; ob.info = 'undefined value'; return
            if a is b:
                ob.status = 'proved'; ob.info = 'syntactic'; return
            r, why = s.pit(a, b, ob.facts)
            if r:
                ob.status = 'proved'; ob.info = 'pit ' + why; return
            if r is False and s.pit_signed(a, b, ob.facts): ob.status = 'proved'; ob.info = 'pit identity over 3 prime fields at residues'; return
            ne = [[('lt', dag.sub(a, b))], [('gt', dag.sub(a, b))]]
            if ob.facts and s.certified(ob, ne): ob.status = 'proved'; ob.info = 'linear certificate'; return
            tol = 1e-6
            def bad(V):
                x, y = V[a.id], V[b.id]
                return np.abs(x - y) > tol * (1 + np.abs(x) + np.abs(y))
            hits, anysat = s.refute(ob, [a, b], bad)
            if hits:
                ob.status = 'refuted'; ob.model = hits; ob.info = 'numeric refutation'; return
            # infeasible path / equality path
            if ob.facts and (s.certified(ob, None, (2,)) or s.certified(ob, ne, (2,))): ob.status = 'proved'; ob.info = 'product certificate'; return
            st, mod = s.z3sat(ob, [('ne', dag.sub(a, b))])
            if st == 'unsat': ob.status = 'proved'; ob.info = 'z3-nra'; return
            if st == 'sat': ob.status = 'refuted'; ob.model = mod; ob.info = 'z3-nra model'; return
            pts = list(s.satpts)
            h2, more = s.thin_search(ob, [a, b], bad)
            if h2 == 'unsat': ob.status = 'proved'; ob.info = 'z3-nra infeasible path'; return
            if h2: ob.status = 'refuted'; ob.model = h2; ob.info = 'numeric refutation (thin path)'; return
            if r is False:
                w = s.exact_differs(ob, pts + more)
                if w: ob.status = 'refuted'; ob.model = [w]; ob.exact = True; ob.info = 'exact refutation (70 digits)'; return
                anysat = anysat or bool(more)
            if r is False and anysat and not any(m.op in ('sqrt', 'abs', 'cbrt') for m in dag.topo([a, b])):
                ob.status = 'differs'; ob.info = 'terms differ over F_p, no numeric witness'; return
            ob.status = 'unknown'; ob.info = why or 'z3 unknown'
            return
        if ob.kind == 'ge':
            d = dag.sub(ob.a, ob.b)
            if d.op == 'const' and d.a >= 0:
                ob.status = 'proved'; ob.info = 'syntactic'; return
            from execu import nonneg
            if nonneg(d):
                ob.status = 'proved'; ob.info = 'syntactic nonneg'; return
            if ob.a.op == 'undef' or ob.b.op == 'undef':
                ob.status = 'unknown'; ob.info = 'undefined value'; return
            r, why = s.pit(ob.a, ob.b, ob.facts)
            if r:
                ob.status = 'proved'; ob.info = 'pit ' + why; return
            if s.certified(ob, [[('lt', d)]]): ob.status = 'proved'; ob.info = 'linear certificate'; return
            def bad(V):
                x, y = V[ob.a.id], V[ob.b.id]
                return y - x > 1e-7 * (1 + np.abs(x) + np.abs(y))
            hits, anysat = s.refute(ob, [ob.a, ob.b], bad)
            if hits:
                ob.status = 'refuted'; ob.model = hits; ob.info = 'numeric refutation'; return
            if s.certified(ob, [[('lt', d)]], (2,)): ob.status = 'proved'; ob.info = 'product certificate'; return
            st, mod = s.z3sat(ob, [('lt', d)])
            if st == 'unsat': ob.status = 'proved'; ob.info = 'z3-nra'
            elif st == 'sat': ob.status = 'refuted'; ob.model = mod; ob.info = 'z3-nra model'
            else: s.last_resort(ob, [ob.a, ob.b], bad)
            return
        if ob.kind == 'false':
            if ob.facts and s.certified(ob, None): ob.status = 'proved'; ob.info = 'linear certificate'; return
            hits, anysat = s.refute(ob, [], lambda V: np.bool_(True))
            hits = s.exactly(ob, hits)
            if hits:
                ob.status = 'refuted'; ob.model = hits; ob.info = 'reachable'; return
            if not ob.facts and ob.zfacts == []:
                ob.status = 'refuted'; ob.model = [{}]; ob.info = 'reachable unconditionally'; return
            if not ob.facts:
                ob.status = 'refuted'; ob.model = None; ob.info = 'reachable (integer path condition satisfiable)'; return
            if s.certified(ob, None, (2,)): ob.status = 'proved'; ob.info = 'product certificate'; return
            st, mod = s.z3sat(ob, [])
            if st == 'unsat': ob.status = 'proved'; ob.info = 'z3-nra unreachable'
            elif st == 'sat': ob.status = 'refuted'; ob.model = mod; ob.info = 'z3-nra model'
            else: s.last_resort(ob, [], lambda V: np.bool_(True))
            return
        if ob.kind == 'cond':
            c = ob.a
            nodes = []
            collect(c, nodes)
            neg = dnf_neg(c)
            if not neg or s.certified(ob, neg): ob.status = 'proved'; ob.info = 'linear certificate'; return
            def bad(V):
                return ~evalc(c, V)
            hits, anysat = s.refute(ob, nodes, bad)
            if hits:
                ob.status = 'refuted'; ob.model = hits; ob.info = 'numeric refutation'; return
            worst = 'proved'
            for fl in neg:
                if s.certified(ob, [fl], (2,)): continue
                st, mod = s.z3sat(ob, fl)
                if st == 'sat':
                    ob.status = 'refuted'; ob.model = mod; ob.info = 'z3-nra model'; return
                if st == 'unknown': worst = 'unknown'
            ob.status = worst; ob.info = 'z3-nra'
            if worst == 'unknown': s.last_resort(ob, nodes, bad)
            return
        ob.status = 'unknown'; ob.info = 'kind ' + ob.kind

def linear_single(d):
    al = Fraction(1); be = Fraction(0)
    while True:
        op = d.op
        if op == 'neg': al = -al; d = d.a
        elif op == 'mul' and d.a.op == 'const': al *= d.a.a; d = d.b
        elif op == 'mul' and d.b.op == 'const': al *= d.b.a; d = d.a
        elif op == 'add' and d.a.op == 'const': be += al * d.a.a; d = d.b
        elif op == 'add' and d.b.op == 'const': be += al * d.b.a; d = d.a
        elif op == 'sub' and d.b.op == 'const': be -= al * d.b.a; d = d.a
        elif op == 'sub' and d.a.op == 'const': be += al * d.a.a; al = -al; d = d.b
        else: break
    if d.op == 'var' and not dag.iszvar(d): return d, -be / al
    return None

def collect(c, out):
    if isinstance(c, int): return
    if c.k == 'f': out.append(c.b)
    elif c.k in ('and', 'or'): collect(c.a, out); collect(c.b, out)
    elif c.k == 'not': collect(c.a, out)

def evalc(c, V):
    if isinstance(c, int): return np.bool_(bool(c))
    if c.k == 'f':
        x = V[c.b.id]
        e = 1e-9
        # lenient: a condition violated only within rounding is not a refutation
        return {'lt': x < e, 'le': x <= e, 'gt': x > -e, 'ge': x >= -e, 'eq': np.abs(x) < e, 'ne': np.abs(x) >= 0}[c.a]
    if c.k == 'and': return evalc(c.a, V) & evalc(c.b, V)
    if c.k == 'or': return evalc(c.a, V) | evalc(c.b, V)
    if c.k == 'not': return ~evalc(c.a, V)
    return np.bool_(True)

def dnf_neg(c):
    """disjuncts (lists of facts) of not c"""
    if isinstance(c, int): return [] if c else [[]]
    if c.k == 'f': return [[(NEG[c.a], c.b)]]
    if c.k == 'and': return dnf_neg(c.a) + dnf_neg(c.b)
    if c.k == 'or':
        return [x + y for x in dnf_neg(c.a) for y in dnf_neg(c.b)]
    raise Unsupported('dnf')

def z3num(e):
    if z3.is_rational_value(e):
        return float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
    if z3.is_algebraic_value(e):
        x = e.approx(30)
        return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    return 0.0

class ToZ3:
    def __init__(s):
        s.memo = {}; s.side = []; s.approx = False; s.trig = {}
    def fact(s, op, d):
        # clear a top-level denominator-free form
        x = s.tr(d)
        z = z3.RealVal(0)
        return {'lt': x < z, 'le': x <= z, 'gt': x > z, 'ge': x >= z, 'eq': x == z, 'ne': x != z}[op]
    def tr(s, n):
        M = s.memo
        if n.id in M: return M[n.id]
        for m in dag.topo([n], M):
            if m.id in M: continue
            op = m.op; a = m.a; b = m.b
            if op == 'const': r = z3.RealVal(str(a))
            elif op == 'var': r = z3.RealVal(0) if dag.iszvar(m) else z3.Real('v%d' % m.id)
            elif op == 'add': r = M[a.id] + M[b.id]
            elif op == 'sub': r = M[a.id] - M[b.id]
            elif op == 'mul': r = M[a.id] * M[b.id]
            elif op == 'neg': r = -M[a.id]
            elif op == 'div':
                r = z3.Real('q%d' % m.id)
                s.side.append(r * M[b.id] == M[a.id]); s.side.append(M[b.id] != 0)
            elif op == 'sqrt':
                r = z3.Real('s%d' % m.id)
                s.side.append(r * r == M[a.id]); s.side.append(r >= 0)
            elif op == 'abs':
                r = z3.If(M[a.id] >= 0, M[a.id], -M[a.id])
            elif op == 'cbrt':
                r = z3.Real('c%d' % m.id)
                s.side.append(r * r * r == M[a.id])
            elif op in ('sin', 'cos'):
                if a.id not in s.trig:
                    c, q = z3.Real('cos%d' % a.id), z3.Real('sin%d' % a.id)
                    s.side.append(c * c + q * q == 1)
                    s.trig[a.id] = (c, q)
                    s.approx = True
                r = s.trig[a.id][0 if op == 'cos' else 1]
            elif op == 'pi':
                r = z3.Real('pi'); s.side += [r > z3.RealVal('3.14159265358979'), r < z3.RealVal('3.14159265358980')]
            elif op == 'exp':
                r = z3.Real('e%d' % m.id); s.side.append(r > 0); s.approx = True
            elif op in ('undef', 'inf'):
                raise Unsupported('z3 ' + op)
            else:
                r = z3.Real('u%d' % m.id); s.approx = True
                if op == 'acos': s.side += [r >= 0, r <= z3.RealVal('3.1415926536')]
            M[m.id] = r
        return M[n.id]
