"""Run the check of one property: prove the contracts it rests on from the IR of the current tree, run the
bounded probe next to it, write the evidence file and report."""
import os, sys, time, json, subprocess, traceback, importlib, multiprocessing as mp, concurrent.futures as cf

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from . import build
from .build import Build, BuildError, REPO

EVID = os.path.join(HERE, 'evidence')
REPLAY = os.path.join(EVID, 'replay')

BASE_TRUST = ['z3 4.x (python API), cvc5 1.1.2 as second opinion where z3 gives up',
              'clang 18 front end: the LLVM IR it emits at -O0 is taken as the meaning of the source',
              'irv/: IR reader, symbolic execution, merging, frame and loop rules of this framework']
BASE_ASSUME = ['every text, vector and document is shorter than 2^31 bytes',
               'memory allocation does not fail (std::bad_alloc and std::length_error are not modelled)',
               'library functions satisfy the contracts assumed in irv/stl.py (listed in coverage.library_contracts)',
               'one input stream and one output stream per call; they do not alias the objects read or written']


# ------------------------------------------------------------------ proving
_MODS = {}
_BUILD = None
STOP = 1e12     # no proof is attempted beyond this time


def _module(unit):
    from .llir import Module
    if unit not in _MODS:
        _MODS[unit] = Module(_BUILD.unit_path(unit))
    return _MODS[unit]


def _load(cls):
    m, n = cls.rsplit('.', 1)
    return getattr(importlib.import_module('irv.contracts.' + m), n)


def _prove(task):
    kind, cls, cross, deadline = task
    deadline = max(5, min(deadline, STOP - time.time()))
    from .contract import verify, prove_lemma
    from . import stl
    from .contracts import base
    cls, _, part = cls.partition('/')
    C = _load(cls)
    con = C()
    if kind == 'lemma':
        r = prove_lemma(con, axioms=[base.stream_axioms], cross=cross)
        src = None
    else:
        try:
            mod = _module(con.unit)
        except BuildError as e:
            return dict(cls=cls, name=con.name, kind=kind, fn=None, obls=[], unsupported='IR not available: ' + str(e)[-800:],
                        paths=0, cover=[], time=0, solver=0, queries=0, cvc5=0, disagree=[], models=[], contracts=[], inlined=[], loops=[], ok=False)
        uses = [_load(u if '.' in u else cls.rsplit('.', 1)[0] + '.' + u)() for u in con.uses]
        mods = importlib.import_module('irv.contracts.' + cls.rsplit('.', 1)[0])
        r = None
        for v in range(con.variants):           # other invariants for the same loops: any of them will do
            con.variant = v
            x = verify(mod, con, uses, stl.Models(getattr(mods, 'MODELS', ())), dict(base.IFACE, **getattr(mods, 'IFACE_EXTRA', {})),
                       axioms=[base.stream_axioms] + list(getattr(mods, 'AXIOMS', ())), cross=cross, deadline=deadline, part=int(part) if part else None)
            if r is None or x.ok:
                r = x
            if r.ok:
                break
    obls = []
    for o in r.obls:
        obls.append((o.name, o.status, o.where[:300], (str(o.model)[:1500] if getattr(o, 'model', None) is not None and o.status != 'unsat' else '')))
    return dict(cls=cls, name=r.name, kind=kind, fn=r.fn, obls=obls, unsupported=r.unsupported, paths=r.paths, cover=list(r.cover),
                time=r.time, solver=r.solver_time, queries=r.queries, cvc5=r.cvc5, disagree=r.cvc5_disagree, models=sorted(r.models),
                contracts=sorted(str(x) for x in r.contracts), inlined=sorted(r.inlined), loops=[str(x) for x in r.loops], ok=bool(r.ok))


def parts(cls):
    n = getattr(_load(cls), 'nparts', 1)
    return [cls] if n == 1 else ['%s/%d' % (cls, i) for i in range(n)]


def together(results):
    """the parts of the proof of a function as one"""
    out = {}
    for r in results:
        k = r['cls'].partition('/')[0]
        r['cls'] = k
        o = out.get((k, r['kind']))
        if o is None:
            out[(k, r['kind'])] = r
            continue
        for x in ('obls', 'cover', 'disagree'):
            o[x] = o[x] + r[x]
        for x in ('paths', 'time', 'solver', 'queries', 'cvc5'):
            o[x] += r[x]
        for x in ('models', 'contracts', 'inlined', 'loops'):
            o[x] = o[x] + [y for y in r[x] if y not in o[x]]
        o['unsupported'] = o['unsupported'] or r['unsupported']
        o['ok'] = o['ok'] and r['ok']
    return list(out.values())


ASSUMED = []


def closure(classes, elsewhere=()):
    out, todo = [], list(classes)
    if elsewhere:
        ASSUMED.append('contracts used here and proved by the checks of other properties: ' + ', '.join(sorted(elsewhere)))
    while todo:
        c = todo.pop(0)
        a = getattr(_load(c), 'assumed', None)
        t = getattr(_load(c), 'assumes', None)
        if t and t not in ASSUMED:
            ASSUMED.append(t)
        if a:       # used, not proved: what it adds to the contract it extends is an assumption
            todo.append(a)
            continue
        if c in out or c in elsewhere:
            continue
        out.append(c)
        for u in getattr(_load(c), 'uses', ()):
            todo.append(u if '.' in u else c.rsplit('.', 1)[0] + '.' + u)
    return out


# ------------------------------------------------------------------ probing
def run_probe(b, name, seed, tier, timeout):
    """-> dict(status: ok|fail|crash|hang|nobuild, out, cases, distinct, samples, fails)"""
    t = time.time()
    r = dict(name=name, tier=tier, seed=seed, status='ok', cases=0, distinct=0, samples=[], fails=[], out='')
    try:
        cmd, env = b.probe(name)
    except BuildError as e:
        r.update(status='nobuild', out=str(e)[-4000:], wall=time.time() - t)
        return r
    b1 = time.time()
    try:
        p = subprocess.run(cmd + [str(seed), str(tier)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=dict(os.environ, **env), stdin=subprocess.DEVNULL)
        out, err, rc = p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace'), p.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = (e.stdout or b'').decode('utf-8', 'replace'), (e.stderr or b'').decode('utf-8', 'replace'), 'timeout'
    fin = False
    for l in out.split('\n'):
        if l.startswith('FAIL '):
            r['fails'].append(l[5:])
        elif l.startswith('CASES '):
            r['cases'] = int(l[6:])
            fin = True
        elif l.startswith('DISTINCT '):
            r['distinct'] = int(l[9:])
        elif l.startswith('SAMPLE '):
            r['samples'].append(l[7:])
        elif l.startswith('EXHAUSTIVE '):
            r.setdefault('exhaustive', []).append(l[11:])
    if r['fails']:
        r['status'] = 'fail'
    elif rc == 'timeout':
        r['status'] = 'hang'
    elif rc != 0 or not fin:
        r['status'] = 'crash'
    if r['status'] != 'ok':
        r['out'] = 'exit %s\n' % rc + out[-4000:] + '\n' + err[-6000:]
    r['rc'] = rc
    r['build'] = b1 - t
    r['wall'] = time.time() - t
    return r


def main(argv):
    from . import props
    global _BUILD
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 2:
        tier = argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[pid]
    t0 = time.time()
    os.makedirs(REPLAY, exist_ok=True)
    try:
        os.unlink(os.path.join(EVID, pid + '.json'))
    except OSError:
        pass
    b = Build()
    _BUILD = b
    try:
        return check(pid, P, tier, seed, b, t0)
    finally:
        b.close()


def check(pid, P, tier, seed, b, t0):
    thorough = tier == 'thorough'
    try:
        b.protogen()
    except (BuildError, subprocess.TimeoutExpired) as e:
        print('ERROR: the repository does not build\n%s' % str(e)[-3000:])
        return 2
    # schemas and IR (in parallel), then fork the provers
    contracts = closure(P.get('contracts', []), P.get('elsewhere', ()))
    lemmas = list(P.get('lemmas', []))
    units = sorted({_load(c).unit for c in contracts})
    genfail = b.prepare(units)
    probes = P.get('probes', [])
    results, pres = [], []
    deadline = 300 if thorough else 240
    global STOP
    STOP = t0 + 640
    with cf.ThreadPoolExecutor(4) as tp:
        fut = [tp.submit(run_probe, b, n, seed, 1 if thorough else 0, 700 if thorough else 240) for n in probes]
        tasks = [('lemma', l, thorough, deadline) for l in lemmas] + [('fn', t, thorough, deadline) for c in sorted(contracts, key=lambda c: -getattr(_load(c), 'cost', 0)) for t in parts(c)]
        if tasks:
            for u in units:
                try:
                    _module(u)
                except Exception:
                    pass
            with cf.ProcessPoolExecutor(min(7, len(tasks)), mp_context=mp.get_context('fork')) as pp:
                fs = [pp.submit(_prove, t) for t in tasks]
                for t, f in zip(tasks, fs):
                    try:
                        results.append(f.result())
                    except Exception as e:
                        results.append(dict(cls=t[1], name=t[1], kind=t[0], fn=None, obls=[], unsupported='prover ended: %r' % e, paths=0, cover=[], time=0,
                                            solver=0, queries=0, cvc5=0, disagree=[], models=[], contracts=[], inlined=[], loops=[], ok=False))
        pres = [f.result() for f in fut]
    results = together(results)
    failed = [(r, o) for r in results for o in r['obls'] if o[1] != 'unsat']
    if failed and not thorough and not any(p['status'] != 'ok' for p in pres):
        # look harder for an input that shows it
        with cf.ThreadPoolExecutor(4) as tp:
            more = list(tp.map(lambda n: run_probe(b, n, seed + 1, 1, 400), probes))
        for i, m in enumerate(more):
            if m['status'] in ('fail', 'crash') or (m['status'] == 'hang' and pres[i]['wall'] > 100):
                pres.append(m)
    bad = [p for p in pres if p['status'] != 'ok']
    unproved = [r for r in results if not r['ok']]
    lines = []
    rc = 0
    if bad or genfail:
        path = os.path.join(REPLAY, '%s.txt' % pid)
        with open(path, 'w') as f:
            f.write('property %s, seed %d, tier %s\n' % (pid, seed, tier))
            if genfail:
                f.write('\nthe generator failed on a valid schema:\n%s\n' % genfail)
            for p in bad:
                what = {'fail': 'failing inputs', 'crash': 'the probe crashed', 'hang': 'the probe did not end', 'nobuild': 'code generated for a valid schema does not compile'}[p['status']]
                f.write('\nprobe harness/%s (seed %s, tier %s): %s\n' % (p['name'], p['seed'], p['tier'], what))
                for x in p['fails']:
                    f.write('  ' + x + '\n')
                f.write(p['out'] + '\n')
            for r, o in failed:
                f.write('\nfailed obligation: %s [%s]: %s (%s)\n  at %s\n' % (r['name'], r['fn'], o[0], o[1], o[2]))
            f.write('\nreplay: cd /verif && VERIF_SEED=%d ./check %s %s\n' % (seed, pid, tier))
        for p in bad:
            for x in p['fails'][:3]:
                print('  ' + x[:400])
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    elif failed:
        path = os.path.join(REPLAY, '%s.txt' % pid)
        with open(path, 'w') as f:
            f.write('property %s, seed %d, tier %s: obligations the verifier does not discharge; no failing input found\n' % (pid, seed, tier))
            for r, o in failed:
                f.write('\nfailed obligation: %s [%s]: %s (%s)\n  at %s\n  counterexample candidate (values of the symbolic state, not an input):\n%s\n' % (r['name'], r['fn'], o[0], o[1], o[2], o[3]))
            f.write('\nreplay: cd /verif && VERIF_SEED=%d ./check %s %s\n' % (seed, pid, tier))
        for r, o in failed[:5]:
            print('  failed obligation: %s: %s' % (r['name'], o[0]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        rc = 1
    for r in unproved:
        if r['unsupported']:
            print('  not proved on this tree (bounded check only): %s: %s' % (r['name'], r['unsupported'].strip().split('\n')[-1][:200]))
    evidence(pid, P, tier, seed, results, pres, rc, t0)
    n = sum(len(r['obls']) for r in results)
    d = sum(1 for r in results for o in r['obls'] if o[1] == 'unsat')
    print('%s: %d of %d obligations discharged over %d functions and %d lemmas; %d bounded cases; %.1f s'
          % (pid, d, n, sum(1 for r in results if r['kind'] == 'fn'), len(lemmas), sum(p['cases'] for p in pres), time.time() - t0))
    for l in lines:
        print(l)
    if rc == 0:
        for k in known(pid):
            print('KNOWN-FINDING: property=%s %s' % (pid, k))
    sys.stdout.flush()
    return rc


def known(pid):
    out = []
    for l in open(os.path.join(HERE, 'known-findings.txt')):
        if l.startswith('known: property=%s ' % pid):
            out.append(l.split(' ', 2)[2].strip())
    return out


def evidence(pid, P, tier, seed, results, pres, rc, t0):
    obls = sum(len(r['obls']) for r in results)
    dis = sum(1 for r in results for o in r['obls'] if o[1] == 'unsat')
    import z3
    cov = {
        'evaluations': sum(p['cases'] for p in pres),
        'distinct_nontrivial': sum(p['distinct'] for p in pres),
        'rule': P.get('rule', 'inputs generated by the probe harness/%s from the statement of the property; distinct by content' % ','.join(P.get('probes', []))),
        'samples': [s for p in pres for s in p['samples']][:12] or ['(none)'],
        'bounded': [dict(probe=p['name'], tier=p['tier'], seed=p['seed'], cases=p['cases'], distinct=p['distinct'], status=p['status'],
                         bound=P.get('bound', 'random and enumerated inputs of this run only')) for p in pres],
    }
    if results:
        cov.update({
            'obligations': obls,
            'discharged': dis,
            'checker_cmd': './check %s %s' % (pid, tier),
            'trusted_base': BASE_TRUST + ['library contracts of irv/stl.py: ' + ', '.join(sorted({m for r in results for m in r['models']}))[:6000]],
            'functions_under_contract': [dict(contract=r['name'], function=r['fn'], obligations=len(r['obls']), discharged=sum(1 for o in r['obls'] if o[1] == 'unsat'),
                                              paths=r['paths'], inlined=r['inlined'][:40], callee_contracts=r['contracts'], loops=r['loops'],
                                              solver_s=round(r['solver'], 2), wall_s=round(r['time'], 2), proved=r['ok'],
                                              **({'not_proved': r['unsupported'][-400:]} if r['unsupported'] else {})) for r in results if r['kind'] == 'fn'],
            'lemmas': [dict(lemma=r['name'], obligations=len(r['obls']), discharged=sum(1 for o in r['obls'] if o[1] == 'unsat'), solver_s=round(r['solver'], 2), proved=r['ok']) for r in results if r['kind'] == 'lemma'],
            'back_end': 'z3 %s' % z3.get_version_string(),
            'solver_s': round(sum(r['solver'] for r in results), 2),
            'queries': sum(r['queries'] for r in results),
            'cvc5_cross_checked': sum(r['cvc5'] for r in results),
            'cvc5_disagreements': [d for r in results for d in r['disagree']],
            'library_contracts': sorted({m for r in results for m in r['models']}),
            'proved_part': P.get('proved', ''),
            'not_proved_part': P.get('rest', ''),
        })
    ev = dict(property=pid, tier=tier, seed=seed, level=P['level'], coverage=cov,
              assumptions=BASE_ASSUME + ASSUMED + list(P.get('assume', [])), wall_s=round(time.time() - t0, 2), violations=1 if rc == 1 else 0)
    tmp = os.path.join(EVID, '.%s.json' % pid)
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(EVID, pid + '.json'))
