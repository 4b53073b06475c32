#!/usr/bin/env python3-vt
"""vcgen driver:  run.py <PROPERTY> [--tier quick|thorough] [--only name] [-v]"""
import sys, os, re, json, time, subprocess, glob, shutil, tempfile, multiprocessing, argparse, traceback, hashlib, signal
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
EV = os.environ.get('VC_EVIDENCE', ROOT + '/evidence')      # where evidence and replay files go
sys.path.insert(0, HERE)
REPO = os.environ.get('VC_REPO', '/repo')
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
OPT = shutil.which('opt-18') or '/usr/lib/llvm-18/bin/opt'
CXX = ['-std=c++17', '-w', '-include', 'cstdint', '-I', REPO + '/include', '-I', ROOT + '/contracts']

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)

def build_ir(src, out, extra):
    o0 = out + '.o0.ll'
    r = sh([CLANG] + CXX + ['-DVC_SYM', '-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-fno-discard-value-names', '-fno-math-errno',
            '-fno-exceptions' if False else '-fexceptions', '-S', '-emit-llvm', '-o', o0] + extra + [src])
    if r.returncode: return r.stderr.decode()[-3000:]
    r = sh([OPT, '-S', '-passes=' + 'sroa,mem2reg', '-o', out, o0])
    if r.returncode: return r.stderr.decode()[-3000:]
    os.unlink(o0)
    return None

def build_native(src, out, extra):
    r = sh([CLANG] + CXX + ['-O1', '-o', out] + extra + [src, ROOT + '/contracts/vc_native.cpp', '-lpthread'])
    return None if r.returncode == 0 else r.stderr.decode()[-3000:]

def demangle(names):
    if not names: return {}
    r = sh(['c++filt'], input='\n'.join(names).encode())
    return dict(zip(names, r.stdout.decode().split('\n')))

_mods = {}
def work(job):
    src, ll, fname, opts = job
    import execu, prove, dag, ir
    try: import symarr
    except ImportError: pass
    t0 = time.time()
    out = {'contract': fname[1:], 'src': src, 'obl': [], 'error': None, 'functions': [], 'paths': 0}
    M = None
    try:
        if ll not in _mods:
            _mods.clear()
            _mods[ll] = ir.Module(open(ll).read())
        mod = _mods[ll]
        dag.reset()
        opts = dict(opts)
        opts['deadline'] = t0 + opts.get('limit', 200)
        cls = execu.Machine
        if 'symarr' in sys.modules: cls = symarr.SymMachine
        M = cls(mod, opts)
        obls = M.explore(fname)
        out['stubbed'] = sorted(x[1:] for x in M.stubbed); out['paths'] = M.paths; out['killed'] = M.killed; out['steps'] = M.steps
        out['t_exec'] = time.time() - t0
        P = prove.Prover(opts.get('seed', 1), opts.get('ztimeout', 10000), opts)
        seen = {}
        for ob in obls:
            if time.time() > opts['deadline'] and ob.status is None:
                ob.status = 'unknown'; ob.info = 'time budget'
            else:
                P.discharge(ob)
            rec = {'label': ob.label, 'kind': ob.kind, 'status': ob.status, 'info': ob.info}
            if ob.status in ('refuted', 'differs'):
                if ob.kind == 'z' or ob.model is None or (ob.model and not isinstance(ob.model, list)):
                    rec['models'] = M.models_of(ob) if hasattr(M, 'models_of') else []
                else:
                    rec['models'] = [[(env.get(x[2].id, 0.0) if x[0] == 'r' else x[2]) for x in ob.inputs] for env in (ob.model or [])]
                rec['exact'] = bool(getattr(ob, 'exact', False))
                if ob.kind == 'eq': rec['terms'] = [dag.show(ob.a, 3)[:300], dag.show(ob.b, 3)[:300]]
            if ob.status != 'proved':
                rec['path'] = ['%s 0: %s' % (op, dag.show(d, 4)[:200]) for op, d in ob.facts[:16] + ob.facts[-8:]]
            out['obl'].append(rec)
        out['solver_s'] = P.solver_s + getattr(M, 'solver_s', 0)
    except dag.Unsupported as e:
        out['error'] = 'unsupported: ' + str(e)[:400]
    except Exception as e:
        out['error'] = 'internal: %s: %s\n%s' % (type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:])
    if M is not None:
        out['functions'] = sorted(M.functions)
        out['paths'] = M.paths
        out['completed'] = getattr(M, 'completed', 0)
    out['wall'] = time.time() - t0
    return out

def meta_of(src):
    m = {}
    for l in open(src):
        k = re.match(r'//\s*@(\w+):\s*(.*)', l)
        if k: m.setdefault(k.group(1), []).append(k.group(2).strip())
    return m

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--limit', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier
    srcs = sorted(glob.glob(ROOT + '/contracts/%s_*.cpp' % a.prop))
    os.makedirs(EV + '/replay', exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vcgen_')
    try:
        rc = check(a, srcs, tmp, seed, tier, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def check(a, srcs, tmp, seed, tier, t0):
    ncpu = int(os.environ.get('VC_NCPU', 0)) or min(8, os.cpu_count() or 4)
    known = load_known(a.prop)
    jobs = []; notes = []; results = []
    metas = {}
    pool = multiprocessing.Pool(ncpu)
    lls = {}
    for src in srcs:
        metas[src] = meta_of(src)
        base = os.path.basename(src)[:-4]
        ll = tmp + '/' + base + '.ll'
        extra = ' '.join(metas[src].get('flags', [])).split()
        lls[src] = (ll, extra, pool.apply_async(build_ir, (src, ll, extra)))
    broken = []; bounded = []
    asyncs = []
    per_contract = {}
    for src in srcs:
        ll, extra, h = lls[src]
        err = h.get()
        names = re.findall(r'^\s*VC\((\w+)\)', open(src).read(), re.M)
        slow = set(' '.join(metas[src].get('thorough_only', [])).split())
        bnd = set(' '.join(metas[src].get('bounded', [])).split())
        bounded += [(src, n) for n in names if n in bnd and not (a.only and not re.search(a.only, n))]
        names = [n for n in names if n not in bnd]
        if err:
            notes.append('extraction failed for %s: %s' % (os.path.basename(src), err[-600:]))
            broken.append((src, names, err))
            continue
        for n in names:
            if a.only and not re.search(a.only, n): continue
            if n in slow and tier == 'quick': continue
            opts = {'seed': seed, 'limit': a.limit or (240 if tier == 'quick' else 1200),
                    'ztimeout': 10000 if tier == 'quick' else 60000}
            for o in metas[src].get('opts', []):
                for kv in o.split():
                    k, v = kv.split('=')
                    opts[k] = int(v)
            # @opts_for: contract,contract key=int ...
            for o in metas[src].get('opts_for', []):
                if n in o.split()[0].split(','):
                    for kv in o.split()[1:]: k, v = kv.split('='); opts[k] = int(v)
            # @stub: contract,contract /regex on the mangled callee/ name of the extern "C" contract stub
            for o in metas[src].get('stub', []):
                k = re.match(r'(\S+)\s+/(.*)/\s+(\w+)$', o)
                if n in k.group(1).split(','): opts.setdefault('stubs', []).append((k.group(2), '@' + k.group(3)))
            asyncs.append((src, n, pool.apply_async(work, ((src, ll, '@vc_' + n, opts),))))
    t_start = time.time()
    hard = (420 if tier == 'quick' else 3000)
    for src, n, h in asyncs:
        try:
            r = h.get(timeout=max(1, hard - (time.time() - t_start)))
        except multiprocessing.TimeoutError:
            r = {'contract': 'vc_' + n, 'src': src, 'obl': [], 'error': 'time budget exhausted', 'functions': [], 'paths': 0}
        results.append(r)
    pool.terminate()
    # ---------------------------------------------------------------- verdicts
    total = proved = 0
    back = {}
    bad = []       # (result, obligation)
    undecided = []
    covered = set()
    funcs = set()
    for r in results:
        funcs |= set(r['functions'])
        if r['error']:
            undecided.append((r, None, r['error']))
        if not r['error'] and (r.get('completed', 0) == 0 or not r['obl']):
            undecided.append((r, None, 'vacuous: no path satisfied the preconditions to the end'))
        for o in r['obl']:
            total += 1
            if o['status'] == 'proved':
                proved += 1
                k = o['info'].split()[0]
                back[k] = back.get(k, 0) + 1
            elif o['status'] in ('refuted', 'differs'):
                bad.append((r, o))
            else:
                undecided.append((r, o, o['info']))
    # ---------------------------------------------------------------- replay
    need = {s for s, _ in bounded} | {r['src'] for r, o in bad} | {r['src'] for r, o, w in undecided} | {s for s, _, _ in broken}
    natives = {}
    if need:
        pool = multiprocessing.Pool(min(ncpu, len(need)))
        hs = {}
        for src in need:
            out = tmp + '/' + os.path.basename(src)[:-4] + '.bin'
            hs[src] = (out, pool.apply_async(build_native, (src, out, ' '.join(metas[src].get('flags', [])).split())))
        for src, (out, h) in hs.items():
            err = h.get()
            natives[src] = None if err else out
            if err: notes.append('native build failed for %s: %s' % (os.path.basename(src), err[-600:]))
        pool.terminate()
    violations = []; findings = []
    reported = set()
    def report(contract, src, label, inputs, output, reason, replayed):
        kf = match_known(known, contract, label)
        if kf:
            if kf not in findings: findings.append(kf)
            return
        key = contract
        if key in reported: return
        reported.add(key)
        p = EV + '/replay/%s__%s.json' % (a.prop, contract)
        json.dump({'property': a.prop, 'contract': contract, 'contract_file': src, 'obligation': label, 'inputs': inputs,
                   'native_output': output, 'verifier': reason, 'replayed_on_real_code': replayed,
                   'replay_cmd': 'python3-vt %s/vcgen/replay.py %s' % (ROOT, p)}, open(p, 'w'), indent=1)
        violations.append((p, replayed, contract, label))
    groups = {}
    for r, o in bad: groups.setdefault((r['contract'], r['src']), []).append(o)
    pending_nf = []
    for (c, src), obs in groups.items():
        binp = natives.get(src)
        got = False
        tried = 0
        if binp:
            for o in obs:
                for m in (o.get('models') or [])[:8]:
                    tried += 1
                    if tried > 60: break
                    rc, outp = replay(binp, c, m, o.get('exact'))
                    if rc == 1:
                        labs = fail_labels(outp) or [o['label']]
                        for lb in labs: 
                            report(c, src, lb, m, outp[:3000], verifier_note(o), True)
                        got = True
                        break
                if got: break
            if not got:
                hits, outp, stats = search(binp, c, seed, 20000 if tier == 'quick' else 200000, 20 if tier == 'quick' else 120)
                if hits:
                    for lb in (fail_labels(outp) or [obs[0]['label']]):
                        report(c, src, lb, hits, outp[:3000], verifier_note(obs[0]), True)
                    got = True
        if not got: pending_nf.append((c, src, obs))
    for c, src, obs in pending_nf:
        # a refutation by the deciding back end that the concrete run does not show
        hard_ref = [o for o in obs if o['status'] == 'refuted' and o['kind'] == 'z' or (o['kind'] == 'false')]
        soft = [o for o in obs if o not in hard_ref]
        sel = hard_ref or [o for o in soft if o['status'] == 'refuted'] or soft
        o = sel[0]
        report(c, src, o['label'], (o.get('models') or [None])[0], '', verifier_note(o), False)
    # bounded stand-in for undecided contracts
    standins = []
    done = set()
    for r, o, why in undecided:
        c, src = r['contract'], r['src']
        if c in done: continue
        done.add(c)
        binp = natives.get(src)
        rec = {'contract': c, 'why_undecided': why[:500], 'label': o['label'] if o else None}
        if binp:
            hits, outp, stats = search(binp, c, seed, 100000 if tier == 'quick' else 1000000, 15 if tier == 'quick' else 120)
            rec['bounded_runs'] = stats
            if hits:
                for lb in (fail_labels(outp) or ['?']):
                    report(c, src, lb, hits, outp[:3000], 'undecided by the verifier (%s); found by the bounded stand-in' % why[:200], True)
        else: rec['bounded_runs'] = 'native build failed'
        standins.append(rec)
    for src, names, err in broken:
        binp = natives.get(src)
        for n in names:
            rec = {'contract': 'vc_' + n, 'why_undecided': 'IR extraction failed'}
            if binp:
                hits, outp, stats = search(binp, 'vc_' + n, seed, 20000, 6)
                rec['bounded_runs'] = stats
                if hits:
                    for lb in (fail_labels(outp) or ['?']): report('vc_' + n, src, lb, hits, outp[:3000], 'extraction failed; bounded stand-in', True)
            standins.append(rec)
    # contracts out of the verifier's reach: executed on the real code, labelled bounded
    bounds = []
    if bounded:
        lim = (2000, 20) if tier == 'quick' else (100000, 240)
        pool = multiprocessing.Pool(ncpu)
        hs = [(src, n, pool.apply_async(search, (natives[src], 'vc_' + n, seed, lim[0], lim[1]))) for src, n in bounded if natives.get(src)]
        for src, n in bounded:
            if not natives.get(src): bounds.append({'contract': 'vc_' + n, 'bounded_runs': 'native build failed'})
        for src, n, h in hs:
            hits, outp, stats = h.get()
            bounds.append({'contract': 'vc_' + n, 'bounded_runs': stats})
            if hits:
                for lb in (fail_labels(outp) or ['?']): report('vc_' + n, src, lb, hits, outp[:3000], 'bounded check (declared out of reach of the verifier)', True)
        pool.terminate()
    # known findings that still reproduce are printed
    for k in findings: print('KNOWN-FINDING: property=%s %s' % (a.prop, k))
    nviol = len(violations)
    for p, replayed, c, lab in violations:
        print('  failed obligation: %s : %s' % (c, lab))
        print('VIOLATION property=%s replay=%s%s' % (a.prop, p, '' if replayed else ' no-failing-input-found'))
    dm = demangle(sorted(f[1:] for f in funcs))
    real = sorted({v for v in dm.values() if 'delfem2' in v and not v.startswith('vc_')})
    wall = time.time() - t0
    nd = len([r for r in results])
    ev = {'property': a.prop, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {'obligations': total, 'discharged': proved, 'checker_cmd': 'python3-vt vcgen/run.py %s --tier %s' % (a.prop, tier),
                       'trusted_base': ['clang 18 front end + opt sroa/mem2reg (C++ to LLVM IR)', 'vcgen (IR interpreter, obligation generator)',
                                        'finite-field identity tester (one-sided error < 2^-200)', 'z3 (bit-vectors, nonlinear reals)'],
                       'contracts': nd, 'paths': sum(r['paths'] for r in results), 'by_back_end': back,
                       'functions_under_contract': real, 'n_functions_under_contract': len(real),
                       'undecided_contracts_bounded_stand_in': standins,
                       'declared_bounded_contracts': bounds,
                       'solver_s': round(sum(r.get('solver_s', 0) for r in results), 2),
                       'contract_files': [os.path.basename(x) for x in srcs],
                       'per_contract': {r['contract']: {'obligations': len(r['obl']), 'paths': r['paths'], 'wall_s': round(r.get('wall', 0), 2)} for r in results},
                       'callees_replaced_by_their_contract': {r['contract']: list(demangle(r['stubbed']).values()) for r in results if r.get('stubbed')},
                       'notes': notes},
          'assumptions': ['double arithmetic is read as exact real arithmetic (rounding not modelled)',
                          'floating literals within one ulp of a simple rational / multiple of pi / square root of a simple rational are read as that number',
                          'denominators met on a path are non-zero unless the contract states otherwise',
                          'libstdc++ headers are interpreted as compiled, operator new never fails'] +
                         [x for m in metas.values() for x in m.get('assume', [])],
          'wall_s': round(wall, 2), 'violations': nviol}
    with open(EV + '/%s.json' % a.prop, 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d/%d obligations discharged, %d contracts, %d undecided contracts, %d functions, %.1fs' % (
        a.prop, proved, total, nd, len(standins), len(real), wall))
    if a.v:
        for r in sorted(results, key=lambda r: -r.get('wall', 0)):
            st = {}
            for o in r['obl']: st[o['status']] = st.get(o['status'], 0) + 1
            print('  %-46s %6.2fs paths=%-4d %s %s' % (r['contract'], r.get('wall', 0), r['paths'], st, r['error'] or ''))
            shown = 0
            for o in r['obl']:
                if o['status'] != 'proved' and shown < 6:
                    shown += 1
                    print('      %-8s %s [%s] %s %s' % (o['status'], o['label'], o['info'], o.get('path', [])[-8:], o.get('terms', '')))
        for n in notes: print('  note:', n)
        for x in standins: print('  stand-in:', x)
        for x in bounds: print('  bounded:', x)
    if total == 0 and not standins:
        print('no obligations generated'); return 2
    return 1 if nviol else 0

def verifier_note(o):
    return {'status': o['status'], 'back_end': o['info'], 'path': o.get('path'), 'terms': o.get('terms')}

def fail_labels(outp):
    return list(dict.fromkeys(re.findall(r'^FAIL (.*?) \|', outp, re.M)))

def replay(binp, c, inputs, exact=False):
    # an exact refutation may be small: compare as closely as the rounding noise of the run allows
    env = dict(os.environ, VC_REL='1e-12') if exact else None
    try:
        r = sh([binp, c, 'replay'], timeout=60, env=env, input=(' '.join(repr(float(x)) for x in inputs) + '\n').encode())
    except subprocess.TimeoutExpired:
        return 0, ''
    return r.returncode, r.stdout.decode(errors='replace')

def search(binp, c, seed, n, tl):
    try:
        r = sh([binp, c, 'search', str(n), str(seed), str(tl)], timeout=tl * 3 + 60)
    except subprocess.TimeoutExpired:
        return None, '', 'timeout'
    o = r.stdout.decode(errors='replace')
    m = re.search(r'^HIT(.*)$', o, re.M)
    st = re.search(r'^RAN.*$', o, re.M)
    return ([float(x) for x in m.group(1).split()] if m and r.returncode == 1 else None), o, st.group(0) if st else 'exit %d' % r.returncode

def load_known(prop):
    p = ROOT + '/known-findings.txt'
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\w+) contract=(\S+) obligation="([^"]*)" (.*)', l)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out

def match_known(known, c, label):
    for kc, kl, txt in known:
        if kc == c and kl == label: return 'contract=%s obligation="%s" %s' % (kc, kl, txt)
    return None

if __name__ == '__main__':
    main()
