#!/usr/bin/env python3
"""Decide one property:  check.py <ID> [--tier quick|thorough]   (see DESIGN.md)

Builds the property's harnesses from /repo's current source, explores them symbolically
(engine/), replays every counterexample against a native build of the same code, and writes
evidence/<ID>.json.  Exit 0: held on everything explored; exit 1 + VIOLATION line otherwise."""
import json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
import symx
from registry import PROPS

# compiled-library routines the engine may call without seeing their bodies: they take no
# pointer to data of the code under test, or only read data that is never symbolic there
OK_NATIVE = re.compile(r'^(_ZNKSt7__cxx118numpunct|_ZNKSt8numpunct|_ZNKSt7num_putI[cw]\w*do_putES3_RSt8ios_base[cw][lm]$|_ZNKSt5ctypeI[cw]E|_ZNSt6locale|_ZNKSt6locale|_ZNSt8ios_base|_ZNSt7codecvtI\w+E[CD]2E|__cxa_|__dynamic_cast|_Zn[wa]m|_Zd[la]P|_ZSt\d+__throw|_ZSt9terminate|_ZSt18uncaught|_ZSt\d+_Rb_tree|_ZNSt\d+\w*(error|exception|bad_\w+|range|argument|length)[CD]|_ZNSt8__detail15_List_node_base|getenv|_ZNKSt9type_info|_ZNSt9type_info|_ZNKSt\d+\w*4whatEv|__assert_fail|_ZSt21__glibcxx_assert|abort|_ZNSt9exceptionD|_ZNSt9bad_alloc|_ZNSt8bad_cast)')


def known_findings(prop):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) check=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def demangle(names):
    r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.split('\n')


def shorten(n):
    n = n.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'string')
    n = n.replace('std::__cxx11::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> >', 'wstring')
    n = n.replace(', Arabica::default_string_adaptor<string >', '').replace(', Arabica::default_string_adaptor<string>', '')
    return n[:160]


def run_harness(prop, h, tier, exe, outdir, budget, log, known):
    env = dict(os.environ)
    eng = symx.engine()
    params = dict(h.get('params', {})); params.update(h.get(tier, {}).get('params', {}))
    env.update(SYMX_SOLVER=eng['solver'], SYMX_OUT=outdir, SYMX_BUDGET=str(budget), SYMX_TIER='1' if tier == 'thorough' else '0',
               SYMX_SAMPLES='48', SYMX_MAXVIOL='12', SYMX_KNOWN=','.join(known), SYMX_HANG=str(h.get('hang', 10)))
    for k, v in params.items():
        env['SYMX_P_' + k] = str(v)
    os.makedirs(outdir, exist_ok=True)
    r = subprocess.run([exe + '/sym'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=budget + 120, cwd=outdir)
    res = json.load(open(outdir + '/result.json'))
    viols = []
    import glob
    bins = sorted(glob.glob(outdir + '/viol-*.bin'), key=lambda p: int(re.search(r'viol-(\d+)', p).group(1)))
    for b in bins:
        vid = open(b[:-4] + '.txt').read().split('\n')[0]
        env2 = dict(env, REPLAY_NOTES='1', REPLAY_TIMEOUT='12')
        try:
            rr = subprocess.run([exe + '/replay', b], env=env2, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, cwd=outdir)
            o = rr.stdout.decode('utf-8', 'replace'); er = rr.stderr.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired:
            o, er = b + ' crash hang', ''
        verdict = [l for l in o.split('\n') if l.startswith(b + ' ')]
        verdict = verdict[-1][len(b) + 1:] if verdict else 'none'
        viols.append({'id': vid, 'replay': verdict, 'confirmed': verdict.startswith(('violation', 'crash')),
                      'final_id': verdict[10:] if verdict.startswith('violation ') else vid,
                      'bin': b, 'text': o[:6000], 'stderr': er[:4000]})
    # compare the engine's predicted observations with native runs of the same code
    samples = sorted(glob.glob(outdir + '/samples/*'), key=lambda p: int(os.path.basename(p)))
    ok = bad = 0; badl = []; written = []
    if samples:
        env2 = dict(env, REPLAY_SAMPLE='1', REPLAY_TIMEOUT='12')
        sel = samples[:200]
        try:
            rr = subprocess.run([exe + '/replay'] + sel, env=env2, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=200, cwd=outdir)
            lines = rr.stdout.decode('utf-8', 'replace').split('\n')
        except subprocess.TimeoutExpired:
            lines = []
        for l in lines:
            p = l.split(' ')
            if len(p) < 2 or not os.path.exists(p[0]):
                continue
            d = open(p[0], 'rb').read()
            if p[1] == 'ok' and int(p[2]) == struct.unpack('<Q', d[:8])[0]:
                ok += 1
            else:
                bad += 1; badl.append({'input': d[8:].hex(), 'native': ' '.join(p[1:])})
        for s in sel[:3]:
            rr = subprocess.run([exe + '/replay', s], env=dict(env2, REPLAY_NOTES='1'), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60, cwd=outdir)
            notes = [l.strip()[6:] for l in rr.stdout.decode('utf-8', 'replace').split('\n') if l.strip().startswith('note: ')]
            d = open(s, 'rb').read()[8:]
            written.append({'harness': h['name'], 'input_bytes': d.hex(), 'input_text': ''.join(chr(c) if 32 <= c < 127 else '.' for c in d), 'described': notes[:12]})
    names = [l.rstrip('\n') for l in open(exe + '/names')]
    fns = [names[i] for i in res.get('functions', []) if i < len(names)]
    return res, viols, (ok, bad, badl, written), fns, params


def main():
    t00 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[prop]
    known = known_findings(prop)
    hs = [dict(h) for h in P['harnesses'] if not only or h['name'] == only]
    work = tempfile.mkdtemp(prefix='symx-%s-' % prop)
    rdir = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    status = 0
    try:
        exes = {}; errs = []
        def b(h):
            try:
                exes[h['name']] = symx.build(h['name'], h['file'], h.get('srcs', ()), h.get('defs', ()), h.get('libs', ()))
            except Exception as e:
                errs.append((h['name'], str(e)))
        ths = []
        for h in hs:
            key = (h['file'], tuple(h.get('srcs', ())), tuple(h.get('defs', ())))
            t = threading.Thread(target=b, args=(h,)); ths.append(t); t.start()
        for t in ths:
            t.join()
        if errs:
            for n, e in errs:
                print('BUILD FAILED harness=%s\n%s' % (n, e[-3000:]))
            sys.exit(2)
        tb = time.time() - t00
        total = sum(h.get(tier, {}).get('budget', h.get('budget', 60)) for h in hs)
        limit = 780 - tb if tier == 'quick' else 1e9
        scale = min(1.0, limit / max(total, 1))
        cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'queries_discharged': 0, 'queries_answered_from_cache': 0, 'sat': 0, 'unsat': 0,
               'unknown': 0, 'solver_seconds': 0.0, 'assertions_decided_by_solver': 0, 'assertions_decided_on_path': 0, 'incomplete_paths': 0, 'lost_paths': 0,
               'exhaustive': True, 'harnesses': [], 'functions_encoded_count': 0, 'functions_encoded': []}
        allf = set(); nviol = 0; printed_known = set(); mism = []
        for h in hs:
            exe = exes[h['name']][0]
            budget = max(5, h.get(tier, {}).get('budget', h.get('budget', 60)) * scale)
            od = os.path.join(work, h['name'])
            res, viols, (sok, sbad, badl, written), fns, params = run_harness(prop, h, tier, exe, od, budget, None, known)
            allf.update(fns)
            cov['states'] += res['paths'] - res['pruned']; cov['transitions'] += res['branches']; cov['traces_validated_against_impl'] += sok + len([v for v in viols if v['confirmed']])
            cov['samples'] += written
            cov['queries_discharged'] += res['queries'] - res['cache_hits']; cov['queries_answered_from_cache'] += res['cache_hits']; cov['solver_seconds'] += res['solver_seconds']
            for k in ('sat', 'unsat', 'unknown'):
                cov[k] += res[k]
            cov['assertions_decided_by_solver'] += res['checks_symbolic']; cov['assertions_decided_on_path'] += res['checks_on_path']
            cov['incomplete_paths'] += res['incomplete']; cov['lost_paths'] += res['lost']
            complete = res['incomplete'] == 0 and res['lost'] == 0 and not res['stopped']
            cov['exhaustive'] = cov['exhaustive'] and complete
            unrev = [n for n in res.get('indirect_natives', {}) if not OK_NATIVE.match(n)]
            unrev += [n.strip() for n in open(exe + '/natives') if n.strip() and not OK_NATIVE.match(n.strip())]
            missing = [r for r in h.get('reach', ()) if r not in res['reach']]
            hh = {'harness': h['name'], 'bounds': h.get('bounds', ''), 'parameters': params, 'budget_s': round(budget, 1), 'paths': res['paths'], 'pruned_by_assumption': res['pruned'], 'complete_within_bounds': complete,
                  'seconds': res['seconds'], 'reached': res['reach'], 'assertions': res['checks'], 'incomplete_reasons': res['incomplete_reasons'], 'unmodelled_library_calls': sorted(set(unrev))[:40],
                  'reach_witnesses_missing': missing, 'native_replays_agreeing': sok, 'native_replays_disagreeing': badl[:5]}
            if sbad:
                mism += badl
            un = []
            for v in viols:
                if not v['confirmed']:
                    un.append({'id': v['id'], 'replay': v['replay'], 'input': open(v['bin'], 'rb').read().hex()}); continue
                vid = v['final_id'] if v['final_id'] in known else v['id']
                if vid in known:
                    if vid not in printed_known:
                        print('KNOWN-FINDING: property=%s %s' % (prop, known[vid])); printed_known.add(vid)
                    continue
                nviol += 1
                base = os.path.join(rdir, '%s-%s-%d' % (prop, h['name'], nviol))
                shutil.copy(v['bin'], base + '.bin')
                with open(base + '.txt', 'w') as f:
                    f.write('property %s harness %s\nassertion: %s\nnative replay: %s\nparameters: %s\n%s\n%s\n' % (prop, h['name'], v['id'], v['replay'], params, v['text'].replace(v['bin'], base + '.bin'), v['stderr']))
                print('VIOLATION property=%s replay=%s' % (prop, base + '.bin'))
                print('  harness %s, assertion %s, native replay: %s' % (h['name'], v['id'], v['replay']))
                for l in v['text'].split('\n'):
                    if l.strip().startswith('note: '):
                        print('   ' + l.strip())
                status = 1
            if un:
                hh['unconfirmed_counterexamples'] = un[:8]
                print('NOTE: %d counterexample(s) of %s did not reproduce natively and are not reported: %s' % (len(un), h['name'], sorted({u['id'] for u in un})[:6]))
            if missing:
                print('NOTE: harness %s did not reach %s' % (h['name'], missing))
            if sbad:
                print('NOTE: %d native replays disagree with the engine in %s' % (sbad, h['name']))
            if unrev:
                print('NOTE: unmodelled library calls in %s: %s' % (h['name'], sorted(set(unrev))[:12]))
            print('%s/%s: paths=%d incomplete=%d lost=%d pruned=%d queries=%d solver=%.1fs checks=%d+%d samples ok=%d bad=%d time=%.1fs %s' % (prop, h['name'], res['paths'], res['incomplete'], res['lost'], res['pruned'], res['queries'] - res['cache_hits'], res['solver_seconds'], res['checks_symbolic'], res['checks_on_path'], sok, sbad, res['seconds'], res['incomplete_reasons'] or ''))
            cov['harnesses'].append(hh)
        fl = sorted({shorten(n) for n in demangle(sorted(allf))})
        ours = [n for n in fl if 'Arabica' in n and not n.startswith(('std::', 'boost::', '__gnu'))]
        cov['functions_encoded_count'] = len(allf)
        cov['functions_encoded'] = ours[:400]
        cov['solver_seconds'] = round(cov['solver_seconds'], 3)
        cov['explanation'] = 'states = symbolic paths (each stands for every input satisfying its path condition); transitions = symbolic branch decisions; every infeasible branch and every symbolic assertion was decided by Z3'
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': P.get('assumptions', []) + ['bounds as listed per harness; inputs outside them are not covered',
                  'engine (LLVM IR instrumentation, expression simplifier, byte-domain presolver), Z3 4.8.12 and clang 18 are trusted; native replays of sampled paths agree with the engine as counted',
                  'paths counted as incomplete or lost were not decided'],
              'wall_s': round(time.time() - t00, 2), 'violations': nviol}
        ev['coverage']['build_seconds'] = round(tb, 1)
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        tmp = os.path.join(HERE, 'evidence', prop + '.json.tmp')
        json.dump(ev, open(tmp, 'w'), indent=1)
        os.replace(tmp, os.path.join(HERE, 'evidence', prop + '.json'))
        print('%s %s: %s build=%.1fs wall=%.1fs' % (prop, tier, 'VIOLATED' if status else ('held' + ('' if cov['exhaustive'] else ' (exploration incomplete)')), tb, time.time() - t00))
    finally:
        if not os.environ.get('SYMX_KEEP'):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('kept', work)
    sys.exit(status)


if __name__ == '__main__':
    main()
