#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seconds N] [--seed N]
Rebuilds the simulator from /repo's working tree, explores seeded runs of the worlds that decide
the property on all cores, confirms each violation from its replay file in a fresh process and
rewrites evidence/PROPERTY.json."""
import hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.environ.get('SIM_BUILD', os.path.join(V, 'build'))
BIN = os.path.join(B, 'sim')
OUT = os.path.join(B, 'out')
sys.path.insert(0, V)
from worlds import PROPS  # noqa

def known():
    """known-findings.txt: 'finding: property=P plan=FILE class=CLS pattern=RE :: text' and 'fixed: ...'"""
    f = os.path.join(V, 'known-findings.txt')
    r = []
    for line in open(f) if os.path.exists(f) else []:
        m = re.match(r'finding: property=(\S+) plan=(\S+) class=(\S+) pattern=(.*?) :: (.*)', line)
        if m:
            r.append(dict(property=m.group(1), plan=m.group(2), cls=m.group(3), pattern=m.group(4), text=m.group(5)))
    return r

def replay(path):
    p = subprocess.run([BIN, 'replay', '--file', path], capture_output=True, text=True, errors='replace')
    try:
        j = json.loads(p.stdout[p.stdout.index('{'):])
    except Exception:
        return p.returncode, None, None, p.stdout[-500:] + p.stderr[-500:]
    i = j['info']
    return p.returncode, i['class'], i['hash'], i['text']

def symbolise(text):
    addrs = sorted(set(re.findall(r'@(0x[0-9a-f]+)', text)))[:60]
    if not addrs:
        return text
    try:
        o = subprocess.run(['addr2line', '-Cpfse', BIN] + addrs, capture_output=True, text=True, timeout=60).stdout.split('\n')
    except Exception:
        return text
    return text + '\n' + '\n'.join('  %s = %s' % (a, l[:300]) for a, l in zip(addrs, o))

def main():
    prop = sys.argv[1]
    opt = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    tier = opt.get('--tier', 'quick')
    seed = int(opt.get('--seed', os.environ.get('VERIF_SEED', '1') or 1))
    c = PROPS[prop]
    secs = float(opt.get('--seconds', c['quick'] if tier == 'quick' else c['thorough']))
    t0 = time.time()
    b = subprocess.run([sys.executable, os.path.join(V, 'build.py')], capture_output=True, text=True)
    if b.returncode or not os.path.exists(BIN):
        sys.stderr.write(b.stdout[-3000:] + b.stderr[-3000:] + '\nthe simulator could not be built\n')
        return 2
    build_s = time.time() - t0
    out = os.path.join(OUT, prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    jobs = int(os.environ.get('SIM_JOBS', '8'))
    start = 1 + (seed - 1) * 1000003
    if c['worlds'] == ['cluster']:
        return cluster(prop, tier, seed, c, secs, start, jobs, out, build_s, t0)
    t1 = time.time()
    ps = []
    for i in range(jobs):
        o = os.path.join(out, 'w%d' % i)
        ps.append((o, subprocess.Popen([BIN, 'run', '--world', ','.join(c['worlds']), '--start', str(start + i), '--stride', str(jobs), '--time', str(secs), '--max-viol', '2',
                                        '--min-time', '12' if tier == 'quick' else '60', '--wall', '60', '--out', o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    tot = dict(runs=0, timeouts=0, harness=0, rechecked=0, mismatches=0, accesses=0, syncs=0, switches=0, sim_us=0, ops=0, fibers=0, nontrivial=0)
    probes, faults, per_world = {}, {}, {}
    scheds, states = set(), set()
    viols, notes, samples = [], [], []
    dead = 0
    for o, p in ps:
        try:
            err = p.communicate(timeout=secs + 400)[1]
        except subprocess.TimeoutExpired:
            p.kill(); p.communicate(); dead += 1; continue
        try:
            j = json.load(open(o + '.json'))
        except Exception as e:
            dead += 1
            sys.stderr.write('a worker gave no result: %s %s\n' % (e, err[-300:]))
            continue
        for k in tot:
            tot[k] += j[k]
        for a, d in ((probes, j['probes']), (faults, j['faults']), (per_world, j['per_world'])):
            for k, v in d.items():
                a[k] = a.get(k, 0) + v
        scheds.update(j['scheds']); states.update(j['states'])
        viols += j['violations']; notes += j['notes']; samples += j['samples'][:1]
    search_s = time.time() - t1

    # violations: from the replay file, in a fresh process, twice
    mine = [k for k in known() if k['property'] == prop]
    confirmed, suppressed, unconfirmed = {}, 0, []
    for v in sorted(viols, key=lambda v: (v['info']['ops'], v['info']['decisions'])):
        cls = v['info']['class']
        if cls in confirmed:
            continue
        a = replay(v['replay']); b2 = replay(v['replay'])
        if a[0] == 1 and b2[0] == 1 and a[1] == b2[1] == cls and a[2] == b2[2] == v['info']['hash']:
            if any(k['cls'] == cls and re.search(k['pattern'], a[3]) for k in mine):
                suppressed += 1
                continue
            dst = os.path.join(V, 'build', 'replays')
            os.makedirs(dst, exist_ok=True)
            f = os.path.join(dst, '%s-%s-%s.replay' % (prop, cls, hashlib.sha1(open(v['replay'], 'rb').read()).hexdigest()[:10]))
            shutil.copy(v['replay'], f)
            confirmed[cls] = (f, symbolise(a[3]))
        else:
            unconfirmed.append('%s: %s did not recur in a fresh process (%s)' % (v['replay'], cls, a[:3]))
    findings = []
    for k in mine:
        r = replay(os.path.join(V, k['plan']))
        if r[0] == 1 and r[1] == k['cls'] and re.search(k['pattern'], r[3]):
            findings.append(k['text'])
            print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))

    never = sorted(k for k in c.get('probes', []) if not probes.get(k))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': c.get('level', 'exploration'),
        'coverage': {
            'evaluations': tot['runs'], 'distinct_nontrivial': min(len(scheds), tot['nontrivial']),
            'rule': 'One evaluation is one simulated run: a seed fixes workload, configuration, schedule and faults. Non-trivial: at least one scheduling or fault decision departed from the default or more than one operation was answered; '
                    'distinct: the fingerprint of (sequence of scheduled threads, sequence of observable events) was not seen before in this check.',
            'samples': samples[:6],
            'runs_per_world': per_world, 'runs_per_hour': int(tot['runs'] / max(search_s, 1e-6) * 3600), 'seeds': {'first': start, 'runs': tot['runs'], 'workers': jobs},
            'simulated_seconds': round(tot['sim_us'] / 1e6, 1), 'operations_completed': tot['ops'], 'threads_simulated': tot['fibers'],
            'context_switches': tot['switches'], 'instrumented_memory_accesses': tot['accesses'], 'sync_and_system_calls': tot['syncs'],
            'faults_fired': faults, 'distinct_interleavings': len(scheds), 'distinct_states': len(states),
            'probes': {k: v for k, v in probes.items() if v}, 'expected_probes_never_reached': never,
            'repeatability': {'runs_executed_again': tot['rechecked'], 'not_repeatable': tot['mismatches']},
            'runs_without_verdict': {'wall_clock_limit': tot['timeouts'], 'harness': tot['harness'], 'workers_lost': dead},
            'violations_unconfirmed': unconfirmed[:5], 'suppressed_as_known': suppressed, 'known_findings_reproduced': findings, 'notes': [n[:300] for n in notes[:5]],
            'real_code': c['real'], 'stubbed': c['stub'], 'build_s': round(build_s, 1)},
        'assumptions': c['assume'], 'wall_s': round(time.time() - t0, 1), 'violations': len(confirmed)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    tmp = os.path.join(V, 'evidence', prop + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(V, 'evidence', prop + '.json'))
    print('%s %s: %d runs (%d distinct) in %.0f s, %d faults, %d repeat checks (%d mismatches), %d without verdict' % (
        prop, tier, tot['runs'], len(scheds), search_s, sum(faults.values()), tot['rechecked'], tot['mismatches'], tot['timeouts'] + tot['harness'] + dead))
    for n in (notes + unconfirmed)[:5]:
        print('note: ' + n[:400].replace('\n', ' '))
    if never:
        print('note: never reached: ' + ', '.join(never))
    for cls, (f, text) in confirmed.items():
        with open(f + '.txt', 'w') as h:
            h.write(text)
        print('\n'.join('  | ' + l[:400] for l in text.split('\n')[:14]))
        print('VIOLATION property=%s replay=%s class=%s' % (prop, f, cls))
    if confirmed:
        return 1
    if tot['runs'] == 0 or dead == jobs:
        sys.stderr.write('nothing was explored\n')
        return 2
    return 0

def cluster(prop, tier, seed, c, secs, start, jobs, out, build_s, t0):
    if not os.path.exists(B + '/native') or not os.path.exists(B + '/w'):
        sys.stderr.write('the programs for the simulated cluster could not be built\n')
        return 2
    os.environ['SIM_BUILD'] = B
    sys.path.insert(0, os.path.join(V, 'cluster'))
    import search
    cov, notes, confirmed, findings = search.run(prop, tier, secs, start, jobs, known(), out, V)
    cov.update(real_code=c['real'], stubbed=c['stub'], build_s=round(build_s, 1))
    for f in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop, f))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': c['level'], 'coverage': cov, 'assumptions': c['assume'], 'wall_s': round(time.time() - t0, 1), 'violations': len(confirmed)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    tmp = os.path.join(V, 'evidence', prop + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(V, 'evidence', prop + '.json'))
    print('%s %s: %d runs (%d distinct), %d faults, %d repeat checks (%d mismatches), %d without verdict' % (
        prop, tier, cov['evaluations'], cov['distinct_nontrivial'], sum(cov['faults_fired'].values()), cov['repeatability']['runs_executed_again'], cov['repeatability']['not_repeatable'], sum(cov['runs_without_verdict'].values())))
    for n in notes[:5]:
        print('note: ' + n[-400:].replace('\n', ' '))
    for cls, (f, text) in confirmed.items():
        print('\n'.join('  | ' + l[:400] for l in text.split('\n')[:14]))
        print('VIOLATION property=%s replay=%s class=%s' % (prop, f, cls))
    if confirmed:
        return 1
    if cov['evaluations'] == 0:
        sys.stderr.write('nothing was explored\n')
        return 2
    return 0

if __name__ == '__main__':
    sys.exit(main())
