#!/usr/bin/env python3
"""Decides one property:  run.py Cxx [--tier quick|thorough] [--case SUBSTR] [-v] [--replay FILE]

Exit 0: every obligation held (or is undecided and no failing input exists within the stated bound).
Exit 1: a line 'VIOLATION property=<id> replay=<path>' names a contract obligation the current tree breaks.
"""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv') and not os.environ.get('VF_NOEXEC'):
    os.environ['VF_NOEXEC'] = '1'
    os.execv(PY, [PY, '-W', 'ignore'] + [os.path.abspath(__file__)] + sys.argv[1:])
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True
os.environ['MPLBACKEND'] = 'Agg'
os.environ['CUDA_VISIBLE_DEVICES'] = ''
for _v in ('OMP_NUM_THREADS', 'MKL_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ[_v] = '1'
import argparse
import importlib
import json
import multiprocessing as mp
import re
import shutil
import tempfile
import time
import traceback
import warnings
warnings.filterwarnings('ignore')
try:
    import tqdm

    class _Quiet(tqdm.tqdm):
        def __init__(self, *a, **kw):
            kw['disable'] = True
            super().__init__(*a, **kw)
    tqdm.tqdm = _Quiet
except ImportError:
    pass
sys.path.insert(0, HERE)
SRC = os.environ.get('VF_SRC', '/repo/src/hookeai')
sys.path.insert(1, SRC)

TIERS = {
    'quick': dict(trials=24, num_s=12.0, sym_s=100.0, prove_s=8.0, total_s=560.0, samples=40, feas_s=0.7, extra=150,
                  extra_s=25.0),
    'thorough': dict(trials=200, num_s=60.0, sym_s=400.0, prove_s=30.0, total_s=860.0, samples=80, feas_s=2.0,
                     extra=600, extra_s=60.0),
}


def work(case, tier, seed, conn):
    """Runs in a child process; streams results."""
    import torch
    torch.set_num_threads(1)
    torch.set_printoptions(profile='default')
    from vf import engine as en, solver, loader
    cfg = dict(TIERS[tier])
    cfg.update({k: v for k, v in case.opts.items() if k in cfg})
    out = {'num': None, 'sym': None}
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull

    def trial(env):
        nb = en.NumBackend(case, env, rtol=case.opts.get('rtol', 1e-6), atol=case.opts.get('atol', 1e-8))
        r = nb.run()
        return r, nb

    def numeric(n, budget, tag='t', start=0):
        t0 = time.time()
        st = {'trials': 0, 'ok': 0, 'skip': 0, 'fails': [], 'undecided': [], 'checks': 0}
        for i in range(start, start + n):
            if time.time() - t0 > budget:
                break
            env = en.Env((seed, case.name, tag, i))
            r, nb = trial(env)
            st['trials'] += 1
            st['checks'] += nb.n
            if r == 'ok':
                st['ok'] += 1
            elif r == 'absent':
                st['absent'] = True
                break
            elif r == 'skip':
                st['skip'] += 1
            elif r == 'fail':
                st['fails'].append({'env': dict(env.v), 'fails': nb.fails[:5]})
                if len(st['fails']) >= 3:
                    break
            else:
                st['undecided'].append(r)
                if len(st['undecided']) >= 3:
                    break
        return st
    try:
        if case.opts.get('num', True):
            ns = numeric(case.opts.get('ntrials', cfg['trials']), cfg['num_s'])
        else:
            ns = {'trials': 0, 'ok': 0, 'skip': 0, 'fails': [], 'undecided': [], 'checks': 0}
        conn.send(('num', ns))
        if not case.opts.get('sym', True) or ns.get('absent'):
            conn.send(('done', None))
            return
        t0 = time.time()
        sr = None
        for cut in ((True, False) if case.opts.get('cut', True) else (False,)):
            # a failing input is already known: the proof attempt only completes the picture
            dl = t0 + (min(cfg['sym_s'], 20.0) if ns['fails'] else cfg['sym_s']) * (0.8 if cut else 1.0)
            sb = en.SymBackend(case, seed, cfg['samples'], cfg['feas_s'], cfg['prove_s'], dl,
                               max_paths=case.opts.get('max_paths', 600), cut=cut)
            loader.CUT_LOG.clear()
            res = sb.run()
            good = not res.undecided and all(o['status'] == 'proved' for o in res.obl)
            if sr is None or good:
                sr, ssb = res, sb
            if good or not loader.CUT_LOG:
                break
        sym = {'obl': sr.obl, 'paths': sr.paths, 'undecided': sr.undecided[:8], 'n_undecided': len(sr.undecided),
               'stats': dict(solver.STATS), 'wall': time.time() - t0, 'loops_cut': len(loader.CUT_LOG),
               'mismatch': [], 'replayed': 0, 'sources': sorted(ssb.loader.sources.values()) if ssb.loader else []}
        conn.send(('sym', sym))
        # replay every path witness and every refutation model on the real code
        fails = []
        seen = 0
        envs = [(w['env'], w) for w in ssb.witness[:40]]
        for o in sr.obl:
            if o['status'] == 'refuted' and o.get('model'):
                envs.append(({k: v for k, v in o['model'].items() if '!' not in k}, None))
        for fixed, w in envs[:80]:
            if not case.opts.get('num', True):
                break
            env = en.Env((seed, case.name, 'replay', seen), fixed=fixed)
            r, nb = trial(env)
            seen += 1
            if r == 'fail':
                fails.append({'env': dict(env.v), 'fails': nb.fails[:5]})
                if len(fails) > 3:
                    break
            if w and not w['havoc'] and r in ('ok', 'fail') and w['got']:
                for (n1, g1), (n2, g2) in zip(w['got'], nb.got):
                    if n1 != n2 or len(g1) != len(g2):
                        break
                    bad = [(a, b) for a, b in zip(g1, g2)
                           if a is not None and not (a != a and b != b) and
                           not abs(a - b) <= 1e-5 * max(1.0, abs(a), abs(b))]
                    if bad:
                        sym['mismatch'].append('%s: symbolic %r real %r' % (n1, bad[0][0], bad[0][1]))
                        break
        bad = [o for o in sr.obl if o['status'] != 'proved']
        ex = None
        if (bad or sr.undecided or not sr.obl) and not fails and not ns['fails'] and case.opts.get('num', True):
            ex = numeric(cfg['extra'], cfg['extra_s'], 'x')
            fails += ex['fails']
        conn.send(('post', {'fails': fails, 'replayed': seen, 'mismatch': sym['mismatch'][:5], 'extra': ex}))
        conn.send(('done', None))
    except BaseException as e:      # noqa
        try:
            conn.send(('err', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])))
        except Exception:
            pass


def run_cases(cases, tier, seed, jobs=8, verbose=False):
    cfg = TIERS[tier]
    t_end = time.time() + cfg['total_s']
    ctx = mp.get_context('fork')
    todo = list(cases)
    todo.sort(key=lambda c: -c.opts.get('weight', 1))
    live = {}
    out = {}
    while todo or live:
        while todo and len(live) < jobs:
            c = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(c, tier, seed, w))
            p.start()
            w.close()
            live[c.name] = (c, p, r, time.time())
            out[c.name] = {}
        for n in list(live):
            c, p, r, t0 = live[n]
            fin = False
            try:
                while r.poll(0):
                    k, v = r.recv()
                    out[n][k] = v
                    if k in ('done', 'err'):
                        fin = True
            except (EOFError, OSError):
                fin = True
            lim = c.opts.get('sym_s', cfg['sym_s']) * 1.5 + cfg['num_s'] + cfg['extra_s'] + 40
            if not fin and (time.time() - t0 > lim or time.time() > t_end):
                out[n]['timeout'] = True
                p.kill()
                fin = True
            if fin:
                p.join(5)
                if p.is_alive():
                    p.kill()
                    p.join()
                r.close()
                out[n]['wall'] = time.time() - t0
                del live[n]
                if verbose:
                    report(n, out[n])
        if time.time() > t_end:
            for c in todo:
                out[c.name] = {'timeout': True}
            todo = []
        time.sleep(0.02)
    return out


def report(n, o):
    ns, sy, po = o.get('num') or {}, o.get('sym') or {}, o.get('post') or {}
    obl = sy.get('obl', [])
    st = {}
    for x in obl:
        st[x['status']] = st.get(x['status'], 0) + 1
    print('%-44s %6.1fs num %s/%s skip %s fail %d | sym paths %s %s undec %s mism %d %s' % (
        n, o.get('wall', 0), ns.get('ok'), ns.get('trials'), ns.get('skip'), len(ns.get('fails', [])) + len(po.get('fails', [])),
        sy.get('paths'), st, sy.get('n_undecided'), len(po.get('mismatch', [])), 'TIMEOUT' if o.get('timeout') else ''))
    for f in (ns.get('fails', []) + po.get('fails', []))[:2]:
        print('    FAIL', json.dumps(f['fails'][:3], default=str)[:300])
    for u in (ns.get('undecided', []))[:2]:
        print('    NUM-UNDECIDED', u[:300])
    for u in sy.get('undecided', [])[:3]:
        print('    SYM-UNDECIDED', u[:300])
    for x in [x for x in obl if x['status'] != 'proved'][:4]:
        print('    OBL', x['name'], x['status'], str(x['how'])[:200])
    for m in po.get('mismatch', [])[:2]:
        print('    MISMATCH', m)
    if o.get('err'):
        print('    ERR', o['err'][-1200:])
    sys.stdout.flush()


def load_contracts(prop):
    from vf import engine as en
    mod = 'contracts.%s' % prop.lower()
    importlib.import_module(mod)
    return en.CASES.get(prop, [])


def known(prop):
    f = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get('findings', []) if k['property'] == prop]


def match_known(ks, cname, obl, got):
    for k in ks:
        if re.fullmatch(k['case'], cname) and re.fullmatch(k['obligation'], obl) and \
                (not k.get('got') or re.search(k['got'], str(got))):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?', default='')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--case', default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    tier = a.tier if a.tier in TIERS else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vf_')
    os.environ['MPLCONFIGDIR'] = tmp
    os.environ['VF_TMP'] = tmp
    os.chdir(tmp)
    try:
        rc = selftest() if a.selftest else decide(a, tier, seed, t0)
    finally:
        os.chdir('/')
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(a, tier, seed, t0):
    prop = a.prop
    if a.replay:
        return replay(a)
    import torch      # noqa: imported before forking
    from vf import engine as en, solver     # noqa
    solver.z3()
    cases = load_contracts(prop)
    cases = [c for c in cases if not c.opts.get('thorough') or tier == 'thorough']
    if a.case:
        cases = [c for c in cases if a.case in c.name]
    if not cases:
        print('no contract cases for', prop)
        return 2
    outs = run_cases(cases, tier, seed, a.jobs, a.v)
    ks = known(prop)
    ev_dir = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(ev_dir, 'replay'), exist_ok=True)
    viol = []
    kf = {}
    n_obl = n_dis = n_unk = 0
    how = {}
    bounded = []
    table = {}
    solver_s = 0.0
    sources = set()
    trials = checks = 0
    for c in cases:
        o = outs.get(c.name, {})
        ns, sy, po = o.get('num') or {}, o.get('sym') or {}, o.get('post') or {}
        trials += ns.get('trials', 0) + (po.get('extra') or {}).get('trials', 0) + po.get('replayed', 0)
        checks += ns.get('checks', 0)
        sources.update(sy.get('sources', []))
        obl = sy.get('obl', [])
        proved_names = {x['name'] for x in obl if x['status'] == 'proved'} - \
            {x['name'] for x in obl if x['status'] != 'proved'}
        case_fails = ns.get('fails', []) + po.get('fails', [])
        all_proved = bool(obl) and not sy.get('n_undecided') and all(x['status'] == 'proved' for x in obl)
        real = []
        for f in case_fails:
            for x in f['fails']:
                if all_proved and not po.get('mismatch') and rounding(x):
                    continue
                real.append((f, x))
        n_obl += len(obl)
        d = sum(x['status'] == 'proved' for x in obl)
        mism = bool(po.get('mismatch'))
        if mism:
            d = 0
        n_dis += d
        for x in obl:
            if x['status'] == 'proved':
                how[x['how']] = how.get(x['how'], 0) + 1
        s = sy.get('stats', {})
        solver_s += s.get('z3_s', 0) + s.get('nf_s', 0) + s.get('cvc5_s', 0)
        table[c.name] = {'obligations': len(obl), 'discharged': d, 'paths': sy.get('paths', 0),
                         'loops_cut': sy.get('loops_cut', 0), 'runtime_trials': ns.get('trials', 0)}
        for f, x in real:
            k = match_known(ks, c.name, x['obligation'], x['got'])
            if k:
                kf[k['id']] = k
            else:
                viol.append((c, x['obligation'], {'env': f['env'], 'failure': x}, True))
        if not real:
            bad = [x for x in obl if x['status'] == 'refuted']
            bad = [x for x in bad if not match_known(ks, c.name, x['name'], '')]
            if bad and not case_fails and not mism:
                x = bad[0]
                viol.append((c, x['name'], {'env': {k: v for k, v in (x.get('model') or {}).items()},
                                            'failure': {'obligation': x['name'], 'verifier': x['how']}}, False))
            if not all_proved or mism:
                why = []
                if o.get('timeout'):
                    why.append('time limit')
                if o.get('err'):
                    why.append('error: ' + o['err'].splitlines()[0][:200])
                why += sy.get('undecided', [])[:2]
                why += ['%s: %s' % (x['name'], x['how']) for x in obl if x['status'] == 'unknown'][:2]
                why += ['semantics cross-check: ' + m for m in po.get('mismatch', [])[:1]]
                if ns.get('absent'):
                    why.append('the internal function under contract is not in the code: the case does not apply')
                elif not c.opts.get('sym', True):
                    why.append('run-time contract only: ' + c.opts.get('why', ''))
                bounded.append({'case': c.name, 'reason': '; '.join(why)[:600],
                                'bound': '%d sampled inputs on the real code' % (
                                    ns.get('trials', 0) + (po.get('extra') or {}).get('trials', 0))})
                table[c.name]['bounded'] = True
        und = ns.get('undecided', [])
        if und:
            bounded.append({'case': c.name, 'reason': 'run-time check not applicable: ' + und[0][:300], 'bound': 'none'})
    # vacuity: at least one obligation or run-time check must exist
    if n_obl == 0 and checks == 0:
        print('no obligation was generated for', prop)
        if not viol:
            return 2
    meta = load_meta(prop)
    contract_mod = sys.modules.get('contracts.%s' % prop.lower())
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': meta.get('level', 'proof'),
        'coverage': {
            'obligations': n_obl, 'discharged': n_dis,
            'checker_cmd': 'python3 /verif/run.py %s --tier %s' % (prop, tier),
            'trusted_base': TRUSTED + list(getattr(contract_mod, 'TRUSTED', [])),
            'back_ends': how, 'functions_under_contract': list(getattr(contract_mod, 'FUNCTIONS', [])),
            'source_files_read': [s.split('/hookeai/')[-1] for s in sorted(sources)],
            'solver_seconds': round(solver_s, 2), 'cases': table, 'bounded_cases': bounded,
            'runtime_trials_on_real_code': trials, 'runtime_checks': checks,
        },
        'assumptions': ASSUMPTIONS + list(getattr(contract_mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': [{'case': c.name, 'obligation': ob} for c, ob, _, _ in viol],
    }
    json.dump(ev, open(os.path.join(ev_dir, prop + '.json'), 'w'), indent=1, default=str)
    for k in sorted(kf):
        print('KNOWN-FINDING: property=%s %s' % (prop, kf[k]['what']))
    print('%s %s: %d cases, %d obligations, %d discharged, %d bounded cases, %d trials on the real code, %.1f s' % (
        prop, tier, len(cases), n_obl, n_dis, len(bounded), trials, time.time() - t0))
    if viol:
        viol.sort(key=lambda v: not v[3])
        c, ob, data, found = viol[0]
        path = os.path.join(ev_dir, 'replay', '%s.json' % prop)
        json.dump({'property': prop, 'case': c.name, 'obligation': ob, 'failing_input_found': found, **data,
                   'all': [{'case': x[0].name, 'obligation': x[1], 'found': x[3], 'detail': x[2]['failure']} for x in viol[:20]],
                   'how_to_replay': 'python3 /verif/run.py %s --replay %s' % (prop, path)},
                  open(path, 'w'), indent=1, default=str)
        print('  failed obligation: %s / %s: %s' % (c.name, ob, json.dumps(data['failure'], default=str)[:400]))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if found else ' no-failing-input-found'))
        return 1
    return 0


def selftest():
    """Set-up check: the provers answer, and the engine refutes a false statement and proves a true one."""
    from vf import solver, terms as tm
    x, y = tm.var('x'), tm.var('y')
    t = solver.entails([], tm.atom('<=', 2 * x * y - x * x - y * y), 10.0)
    f = solver.entails([], tm.atom('<=', 2 * x * y - x * x), 10.0)
    import torch
    print('prover: true statement', t[0], '; false statement', f[0], '; torch', torch.__version__)
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
    import selftest_nf
    nf = selftest_nf.main(800, 1)
    return 0 if t[0] == 'proved' and f[0] == 'refuted' and not nf else 2


def rounding(x):
    try:
        g = float(x['got'])
        w = float(str(x['want']).replace('<=', ''))
        return abs(g - w) <= 1e-4 * max(1.0, abs(g), abs(w))
    except (ValueError, TypeError):
        return False


def replay(a):
    d = json.load(open(a.replay))
    from vf import engine as en
    cs = [c for c in load_contracts(a.prop) if c.name == d['case']]
    if not cs:
        print('unknown case', d['case'])
        return 2
    env = en.Env(('replay',), fixed={k: v for k, v in d['env'].items() if '!' not in k})
    nb = en.NumBackend(cs[0], env, rtol=cs[0].opts.get('rtol', 1e-6), atol=cs[0].opts.get('atol', 1e-8))
    r = nb.run()
    print(r)
    for f in nb.fails[:10]:
        print(json.dumps(f, default=str))
    if r == 'fail':
        print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
        return 1
    return 0


def load_meta(prop):
    try:
        m = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == prop:
                return c
    except Exception:
        pass
    return {}


TRUSTED = [
    'vf/: normal-form prover, path explorer and symbolic tensor semantics (cross-checked against real torch on every run)',
    'z3 and cvc5 where named under back_ends', 'CPython and torch for the run-time twin',
]
ASSUMPTIONS = [
    'floating point treated as real arithmetic; decimal literals read as exact rationals (dtype tags tracked, rounding not)',
    'array extents that the case names fixes are instantiated; values are unrestricted reals',
    'division and roots are considered where they are defined (denominators nonzero, radicands nonnegative)',
]

if __name__ == '__main__':
    main()
