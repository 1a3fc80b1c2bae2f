"""Driver: decide one property and write its evidence."""
import json
import multiprocessing as mp
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.isfile(p):
        return []
    with open(p, encoding='utf-8') as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid]


def main(argv):
    pid = argv[0]
    tier = 'quick'
    only = None
    for a in argv[1:]:
        if a in ('quick', 'thorough'):
            tier = a
        elif a.startswith('--only='):
            only = a[7:]
    budget = float(os.environ.get('VP_BUDGET', '600' if tier == 'quick' else '3000'))
    from engine import worker
    t0 = time.time()
    ncpu = int(os.environ.get('VP_JOBS', min(8, len(os.sched_getaffinity(0)))))
    verbose = os.environ.get('VP_VERBOSE')
    survey = os.environ.get('VP_SURVEY')     # development: list every failing class instead of stopping
    worker.prepare(pid, tier)
    mod = worker.STATE['mod']
    insts = [n for n, f, kw in worker.instances(mod, tier) if only is None or only in n]
    ctxm = mp.get_context('fork')
    pool = ctxm.Pool(ncpu, worker.init_worker, (pid, tier))
    total = worker.new_stats()
    per = {n: {'paths': 0, 'time': 0.0, 'done': False} for n in insts}
    funcs, samples, notes, errs, cands = set(), [], [], [], []
    pending = []
    outstanding = {n: 0 for n in insts}
    queue = [(n, [[]]) for n in reversed(insts)]
    failed = set()
    slice_s = 1.5
    incomplete = False

    def submit(n, stack):
        outstanding[n] += 1
        pending.append(pool.apply_async(worker.task, (n, stack, slice_s, 10 ** 9 if survey else 3)))

    while queue or pending:
        while queue and len(pending) < ncpu * 2:
            n, st = queue.pop()
            if n in failed:
                continue
            submit(n, st)
        done = [r for r in pending if r.ready()]
        if not done:
            if pending:
                pending[0].wait(0.02)
            if time.time() - t0 > budget:
                incomplete = True
                break
            continue
        for r in done:
            pending.remove(r)
            res = r.get()
            n = res['h']
            outstanding[n] -= 1
            for k, v in res['stats'].items():
                total[k] += v
            per[n]['paths'] += res['stats']['paths']
            per[n]['time'] += res['time']
            funcs.update(res['funcs'])
            notes.extend(res['notes'])
            if len(samples) < 12:
                samples.extend(res['samples'][:2])
            if res['err']:
                errs.append(res['err'])
            if res['cands']:
                cands.extend(res['cands'])
                if not survey:
                    failed.add(n)
            if res['stack'] and n not in failed:
                st = res['stack']
                # share the remaining work
                parts = min(len(st), max(1, ncpu - len(pending) - len(queue)) if len(queue) < ncpu else 1)
                for i in range(parts):
                    queue.append((n, st[i::parts]))
        if len(failed) >= (4 if not survey else 10**9) or time.time() - t0 > budget:
            incomplete = bool(queue or pending)
            break
    if pending or queue:
        pool.terminate()
    else:
        pool.close()
    pool.join()
    wall = time.time() - t0
    # known findings, replayed on the unmodified code
    known = load_known(pid)
    kf_lines = []
    if known:
        pl = worker.Plain(pid)
        for k in known:
            rep = pl.ask(k['harness'], k['values'], replay=True)
            if rep['failures']:
                kf_lines.append(f'KNOWN-FINDING: property={pid} {k["id"]} {k["what"]}')
        pl.close()
    rc = 0
    replays = []
    if survey and cands:
        cnt = {}
        for c in cands:
            k = (c['harness'].split('[')[0], c['replay'][0][0][:30])
            cnt[k] = cnt.get(k, 0) + 1
            if cnt[k] > 3:
                continue
            print('  SURVEY', c['harness'], {k: (chr(v) if '.' in k else v) for k, v in list(c['values'].items())[:10]},
                  c['replay'][0][0], c['replay'][0][1][:160])
        return 1
    if cands:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        seen = set()
        for c in cands:
            key = (c['harness'], str(c['replay'][0][0]))
            if key in seen and not survey:
                continue
            seen.add(key)
            p = os.path.join(VERIF, 'replays', f'{pid}-{len(seen)}.json')
            with open(p, 'w', encoding='utf-8') as f:
                json.dump(dict(c, property=pid), f, indent=1)
            replays.append((p, c))
            if len(seen) >= 5 and not survey:
                break
        rc = 1
    vac = [n for n in insts if per[n]['paths'] == 0] if not cands else []
    cov = {
        'explanation': 'Bounded symbolic execution of the real source: every path of each harness within the stated '
                       'bounds is executed with symbolic inputs; per path the solver decides path-condition AND NOT '
                       'property (unsat = holds for every value on the path).',
        'states': total['paths'],
        'transitions': total['decisions'],
        'traces_validated_against_impl': total['validated'],
        'samples': samples[:8],
        'harness_instances': len(insts),
        'paths_reaching_the_assertions': total['reached'],
        'obligations': total['obligations'],
        'solver_queries': total['queries'],
        'final_queries': total['final_queries'],
        'solver_time_s': round(total['solver_time'], 2),
        'solver_unknown': total['unknown'],
        'paths_incomplete': total['incomplete'],
        'paths_unsupported': total['unsupported'] + total['timeout'],
        'paths_excluded_known_finding': total['excluded'],
        'paths_ended_by_assumption': total['infeasible'],
        'encoding_mismatches': total['mismatch'],
        'functions_encoded': sorted(funcs),
        'bounds': getattr(mod, 'BOUNDS', ''),
        'exhaustive': bool(not incomplete and not total['incomplete'] and not total['unsupported']
                           and not total['timeout'] and not total['unknown'] and not vac and not errs),
        'harness_paths': {n: per[n]['paths'] for n in insts[:400]},
        'engine_errors': errs[:3],
        'notes': notes[:10],
    }
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
          'coverage': cov, 'assumptions': getattr(mod, 'ASSUMPTIONS', []) + COMMON, 'wall_s': round(wall, 2),
          'violations': len(replays)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1)
    for l in kf_lines:
        print(l)
    print(f'{pid} {tier}: {len(insts)} harnesses, {total["paths"]} paths, {total["queries"]} queries, '
          f'{total["validated"]} validated, {total["excluded"]} excluded, {total["incomplete"]} incomplete, '
          f'{total["unsupported"]}+{total["timeout"]} unsupported/timeouts, {total["mismatch"]} mismatches, '
          f'{len(errs)} errors, {wall:.1f} s' + (' INCOMPLETE' if incomplete else ''))
    if verbose:
        for n in sorted(per, key=lambda n: -per[n]['time'])[:25]:
            print(f'   {n}: {per[n]["paths"]} paths, {per[n]["time"]:.1f} s cpu')
        for x in notes[:15]:
            print('   note', x)
    for e in errs[:3]:
        print('ENGINE-ERROR', e)
    for p, c in replays:
        print(f'  {c["harness"]}: {c["replay"][0][0]}: {c["replay"][0][1][:300]}')
        print(f'VIOLATION property={pid} replay={p}')
    sys.stdout.flush()
    return rc


COMMON = [
    'strings: concrete length per case, every character a z3 integer over the stated code point set; U+F0000..U+F7FFF '
    'are reserved as carriers of symbolic characters and are outside the claim',
    'expat (C) is modelled: a legal XML character other than < & CR, quotes/TAB/LF in tags, and the sequence ]]> is '
    'passed through unchanged; those are forked and given to the real parser',
    'C library calls that do not inspect text (join, slicing, encoding to UTF-8, zip, file storage) run natively',
]

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
