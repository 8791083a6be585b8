"""Seeded search over schedules and faults of the simulated cluster."""
import hashlib, json, multiprocessing, os, random, re, shutil, subprocess, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine, scen  # noqa

KINDS = {c.__name__: c for c in scen.ALL}
WRITES = {'sort', 'split', 'cp', 'cat', 'gawk', 'mv', 'mkdir', 'mktemp', 'touch'}


def faultable(key, tool, reg, args):
    """what may happen to a call: (kind, code, needs a number of bytes)"""
    r = []
    if tool.startswith('thot_'):
        r += [('E', -1, 0), ('P', -1, 1), ('D', 0, 1), ('E', 1, 0)]
    elif tool == 'sort':
        r += [('E', -1, 0), ('P', -1, 1), ('E', 2, 0)] + ([('D', 0, 1)] if reg else [])
    elif tool == 'gawk' and reg:
        r += [('E', -1, 0), ('P', -1, 1), ('D', 0, 1)]
    elif tool in ('cat', 'cp', 'split'):
        r += [('E', 1, 0)] + ([('D', 0, 1)] if reg or tool != 'cat' else [('P', -1, 1)])
    elif tool in ('mv', 'mkdir', 'mktemp', 'touch', 'ln'):
        r += [('E', 1, 0)]
    return r


def scratch(cl, n):
    w = '%s/work%s' % (cl.root, n)
    os.mkdir(w)
    os.chmod(w, 0o755)
    if os.getuid() == 0:
        os.chown(w, scen.NOBODY, scen.NOBODY)
    for d in ('in', 'tmp', 'sd', 'out'):
        os.mkdir(w + '/' + d)
        if os.getuid() == 0:
            os.chown(w + '/' + d, scen.NOBODY, scen.NOBODY)
    return w


def own(d):
    if os.getuid() == 0:
        for x, _, fs in os.walk(d):
            os.chown(x, scen.NOBODY, scen.NOBODY)
            for f in fs:
                os.chown(x + '/' + f, scen.NOBODY, scen.NOBODY)


def digest(d):
    h = hashlib.md5()
    for x, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            h.update((x + '/' + f + '\0').encode(errors='surrogateescape') + scen.read(x + '/' + f))
    return h.hexdigest()


def decider(spec, rec):
    """the recorded decisions first, then a generator from the seed"""
    given = list(spec.get('decisions', []))
    rng = random.Random('d%s' % spec.get('dseed')) if spec.get('dseed') is not None else None
    policy = rng.choice(('even', 'even', 'first', 'last', 'sticky')) if rng else None
    last = [0]
    def decide(n, what):
        if given:
            d = min(given.pop(0), n - 1)
        elif rng is None:
            d = 0
        elif what == 'who' and policy == 'first':
            d = 0 if rng.random() < .7 else rng.randrange(n)
        elif what == 'who' and policy == 'last':
            d = n - 1 if rng.random() < .7 else rng.randrange(n)
        elif what == 'who' and policy == 'sticky':
            d = min(last[0], n - 1) if rng.random() < .8 else rng.randrange(n)
            last[0] = d
        else:
            d = rng.randrange(n)
        rec.append(d)
        return d
    return decide


def execute(cl, spec, tag, case=None, keep=None):
    """one run (and the one after it, if it failed); what it broke, or None"""
    w = scratch(cl, tag)
    try:
        if case is None:
            case = KINDS[spec['case']](cl, spec['seed'], w + '/in')
        else:
            shutil.rmtree(w + '/in')
            shutil.copytree(case.d, w + '/in')
        case.prepare(w)
        own(w + '/in')
        before = digest(w + '/in') if case.kept else None
        rec = []
        jf = {(a, b): k for a, b, k in spec.get('jobfaults', [])}
        r = engine.Run(cl, w, case.argv(w), spec['mode'] == 'cluster', decider(spec, rec), dict(spec.get('faults', {})), jf, share=case.share)
        rc = r.go()
        res = dict(rc=rc, trace=r.trace, keys=r.keys, fired=r.fired, now=r.now, yields=r.yields, decisions=rec, cls=None, text='', calls={n: t.calls for n, t in r.threads.items()},
                   nsub=r.nsub, nstat=r.nstat, runs=1, args=case.args)
        what = None
        if r.problem:
            what = r.problem
        elif r.stuck:
            what = ('no-end', r.stuck)
        elif rc == 0:
            p = case.check(w)
            if p:
                what = ('wrong-result', p)
            elif before is not None and digest(w + '/in') != before:
                what = ('input-changed', 'the input is no longer what it was')
            elif not r.fired:
                left = sorted(x for x in os.listdir(w + '/sd') + os.listdir(w + '/tmp'))
                if left:
                    what = ('left-behind', 'temporary files remain: %s' % ' '.join(re.sub(r'_\d+', '_N', x) for x in left))
        elif not r.fired:
            what = ('failed-without-fault', 'exit status %s although nothing failed: %s' % (rc, tail(w)))
        else:
            res['reported'] = True
            # the user runs it again
            for d in ('tmp', 'sd'):
                pass
            r2 = engine.Run(cl, w, case.argv(w), spec['mode'] == 'cluster', decider({}, []), share=case.share)
            clean(w)
            rc2 = r2.go()
            res['runs'] = 2
            if r2.problem:
                what = r2.problem
            elif r2.stuck:
                what = ('no-end', r2.stuck)
            elif rc2:
                what = ('rerun-fails', 'run again after a failure, it ends with exit status %s: %s' % (rc2, tail(w)))
            else:
                p = case.check(w, True)
                if p:
                    what = ('rerun-wrong-result', 'run again after a failure: ' + p)
        if what:
            res['cls'] = what[0]
            res['text'] = '%s (%s): %s\n  %s %s\n  faults: %s' % (what[0], spec['mode'], norm(what[1], w, cl), case.script, norm(' '.join(case.args), w, cl),
                                                                '; '.join(norm('%s %s %s [%s]' % (f[0], f[1], f[3], f[2].split()[0]), w, cl) for f in r.fired) or 'none')
        res['hash'] = hashlib.md5(json.dumps([res['rc'] if not r.fired else 0, res['trace'], res['cls']]).encode()).hexdigest()[:16]
        return res
    finally:
        if keep:
            shutil.copytree(w, keep, symlinks=True, dirs_exist_ok=True)
        shutil.rmtree(w, ignore_errors=True)


def norm(s, w, cl):
    s = s.replace(w, '@').replace(cl.root, '#')
    return re.sub(r'_\d{3,}(?=[_/ ]|\b)', '_N', s)


def clean(w):
    """what the simulator wrote in the first run"""
    for f in os.listdir(w):
        if f.startswith(('.out.', '.err.', '.job.')):
            os.unlink(w + '/' + f)


def tail(w):
    out = ''
    for f in sorted(os.listdir(w)):
        if f.startswith(('.err.', '.out.')):
            t = scen.read(w + '/' + f).decode(errors='replace').strip().split('\n')
            if t != ['']:
                out += ' [%s] %s' % (f, ' / '.join(t[-2:]))
    return out[-500:]


def plan_faults(rng, prof, mode):
    faults, jf = {}, []
    keys = [k for k in prof['keys'] if faultable(*k)]
    # calls that only differ in numbers or directories count as one place in the script
    sites = {}
    for k in keys:
        sites.setdefault((k[1], re.sub(r'\d+|[^ ]*/|_[a-z][a-z]\b', '', k[3])), []).append(k)
    places = list(sites)
    progs = [n for n in places if n[0].startswith('thot_')]
    for _ in range(1 if rng.random() < .8 else 2):
        x = rng.random()
        if x < .62 and keys:
            k = rng.choice(sites[rng.choice(progs if progs and rng.random() < .4 else places)])
            kind, code, needs = rng.choice(faultable(*k))
            faults[k[0]] = [kind, code, int(2 ** rng.uniform(0, 11)) - 1 if needs else 0]
        elif mode == 'cluster':
            names = sorted(prof['calls'])
            jobs = [n for n in names if n != 'M' and prof['calls'][n]]
            if x < .80 and jobs:
                n = rng.choice(jobs)
                jf.append([n, rng.randint(1, prof['calls'][n]), rng.choice(('kill', 'requeue', 'requeue'))])
            elif x < .86:
                jf.append(['M', rng.randint(1, max(1, prof['calls']['M'])), 'kill'])
            elif x < .94 and prof['nsub']:
                jf.append(['qsub', rng.randint(1, prof['nsub']), 'fail'])
            elif prof['nstat']:
                jf.append(['qstat', rng.randint(1, prof['nstat']), 'fail'])
        else:
            names = [n for n in sorted(prof['calls']) if prof['calls'][n]]
            if names:
                n = rng.choice(names)
                jf.append([n, rng.randint(1, prof['calls'][n]), 'kill'])
    return faults, jf


def minimise(cl, spec, cls, tag, limit=14):
    n = [0]
    def same(s):
        n[0] += 1
        r = execute(cl, s, '%s-m%d' % (tag, n[0]))
        return r if r['cls'] == cls else None
    best = spec
    for f in list(spec['faults']):
        if len(best['faults']) + len(best['jobfaults']) <= 1 or n[0] >= limit:
            break
        s = dict(best, faults={k: v for k, v in best['faults'].items() if k != f})
        if same(s):
            best = s
    for j in list(spec['jobfaults']):
        if len(best['faults']) + len(best['jobfaults']) <= 1 or n[0] >= limit:
            break
        s = dict(best, jobfaults=[x for x in best['jobfaults'] if x != j])
        if same(s):
            best = s
    # as few decisions as possible, the rest takes the first choice
    lo, hi = 0, len(best['decisions'])
    while lo < hi and n[0] < limit:
        m = (lo + hi) // 2
        if same(dict(best, decisions=best['decisions'][:m])):
            hi = m
        else:
            lo = m + 1
    s = dict(best, decisions=best['decisions'][:hi])
    if hi < len(best['decisions']) and same(s):
        best = s
    return best


def is_known(cls, text, known):
    return any(k['cls'] == cls and re.search(k['pattern'], text) for k in known)


def worker(cl, idx, start, stride, secs, out, maxviol=2, prop=None, known=()):
    rng = random.Random(start)
    t0 = time.time()
    st = dict(runs=0, sim=0, yields=0, ops=0, faults={}, per={}, hashes=set(), viols=[], samples=[], errors=[], rechecked=0, mismatches=0, reported=0, masked=0, rerun=0, tools={}, seeds=0, suppressed=0)
    found = set()
    seed = start
    names = [c.__name__ for c in scen.ALL if prop in (None, c.prop)]
    while time.time() - t0 < secs:
        r = random.Random('s%d' % seed)
        w = [KINDS[n].weight for n in names]
        name = r.choices(names, w)[0]
        mode = r.choice(('cluster', 'cluster', 'local'))
        base = dict(case=name, seed=seed, mode=mode, faults={}, jobfaults=[], dseed=seed)
        st['seeds'] += 1
        cd = '%s/case%d' % (cl.root, idx)
        shutil.rmtree(cd, ignore_errors=True)
        os.mkdir(cd)
        if os.getuid() == 0:
            os.chown(cd, scen.NOBODY, scen.NOBODY)
        try:
            case = KINDS[name](cl, seed, cd)
            specs = [base]
            prof = None
            for k in range(1 + KINDS[name].fanout):
                if k == 0:
                    s = base
                else:
                    f, j = plan_faults(r, prof, mode)
                    s = dict(base, faults=f, jobfaults=j, dseed=seed * 1000 + k)
                res = execute(cl, s, '%d-%d' % (idx, st['runs']), case)
                if k == 0:
                    prof = res
                st['runs'] += 1
                st['sim'] += res['now']
                st['yields'] += res['yields']
                st['most'] = max(st.get('most', 0), res['yields'])
                st['ops'] += len(res['keys'])
                st['per'][name + '/' + mode] = st['per'].get(name + '/' + mode, 0) + 1
                st['hashes'].add(hashlib.md5(json.dumps([res['trace'], sorted(s['faults'].items()), s['jobfaults'], res['args']]).encode()).hexdigest()[:12])
                for kd in res['fired']:
                    n = {'E': 'command failed or killed', 'P': 'command killed while writing', 'D': 'disk full', 'L': 'killed at the end'}.get(kd[0], {'kill': 'job killed', 'requeue': 'job started again'}.get(kd[0], kd[0]))
                    st['faults'][n] = st['faults'].get(n, 0) + 1
                if res.get('reported'):
                    st['reported'] += 1
                    st['rerun'] += 1
                elif res['fired']:
                    st['masked'] += 1
                if len(st['samples']) < 1 and res['fired']:
                    st['samples'].append(dict(case=name, seed=seed, mode=mode, args=' '.join(res['args'])[:200], schedule=' '.join(res['trace'])[:200], faults=[list(x) for x in res['fired']], exit=res['rc']))
                if res['cls']:
                    cls = res['cls']
                    full = dict(s, decisions=res['decisions'])
                    full.pop('dseed')
                    again = execute(cl, full, '%d-a%d' % (idx, st['runs']))
                    if again['cls'] != cls:
                        st['errors'].append('seed %d of %s: %s did not recur: %s | %s %s | %s' % (seed, name, cls, res['text'], json.dumps(s.get('faults')), json.dumps(s.get('jobfaults')), again['cls']))
                    elif is_known(cls, res['text'], known):
                        st['suppressed'] += 1
                    elif (cls, name) not in found:
                        found.add((cls, name))
                        full = minimise(cl, full, cls, '%d-n%d' % (idx, st['runs']), 3 if cls == 'no-end' else 14)
                        st['viols'].append(dict(cls=cls, spec=full, text=res['text']))
                    if k == 0:
                        break
                elif r.random() < .04:
                    full = dict(s, decisions=res['decisions'])
                    full.pop('dseed')
                    again = execute(cl, full, '%d-r%d' % (idx, st['runs']))
                    st['rechecked'] += 1
                    st['mismatches'] += again['hash'] != res['hash']
                    if again['hash'] != res['hash']:
                        st['differ'] = st.get('differ', []) + [[full, res['trace'], again['trace'], res['rc'], again['rc'], res['cls'], again['cls']]]
                if time.time() - t0 > secs:
                    break
        except Exception:
            st['errors'].append('seed %d of %s: %s' % (seed, name, traceback.format_exc()[-600:]))
            if len(st['errors']) > 20:
                break
        if len(st['viols']) >= maxviol:
            break
        seed += stride
    st['hashes'] = sorted(st['hashes'])
    with open(out, 'w') as f:
        json.dump(st, f)


def describe(spec, text):
    return json.dumps(dict(world='cluster', text=text, **spec), indent=1)


def replay(path):
    """executes a replay file: (class, hash, text)"""
    spec = json.load(open(path))
    text = {k: spec.pop(k) for k in ('world', 'text') if k in spec}
    cl = engine.Cluster()
    try:
        r = execute(cl, spec, 'r')
    finally:
        cl.close()
    return dict(cls=r['cls'], hash=r['hash'], text=r['text'], trace=r['trace'])


def again(path):
    p = subprocess.run([sys.executable, os.path.abspath(__file__), path], capture_output=True, text=True, errors='replace')
    try:
        return json.loads(p.stdout)
    except ValueError:
        return dict(cls=None, hash=None, text=p.stderr[-500:])


def run(prop, tier, secs, start, jobs, known, out, verif):
    """the check of a property decided by this world: (evidence coverage, notes, [(class, replay, text)], findings)"""
    t1 = time.time()
    cl = engine.Cluster()
    ps = []
    try:
        for i in range(jobs):
            p = multiprocessing.Process(target=worker, args=(cl, i, start + i, jobs, secs, '%s/w%d.json' % (out, i), 2, prop, [k for k in known if k['property'] == prop]))
            p.start()
            ps.append(p)
        for p in ps:
            p.join(secs + 400)
            if p.is_alive():
                p.kill()
                p.join()
    finally:
        cl.close()
    search_s = time.time() - t1
    R, dead = [], 0
    for i in range(jobs):
        try:
            R.append(json.load(open('%s/w%d.json' % (out, i))))
        except (OSError, ValueError):
            dead += 1
    tot = lambda k: sum(r[k] for r in R)
    def merged(k):
        d = {}
        for r in R:
            for x, n in r[k].items():
                d[x] = d.get(x, 0) + n
        return d
    seen = set(h for r in R for h in r['hashes'])
    errors = [e for r in R for e in r['errors']]
    mine = [k for k in known if k['property'] == prop]
    confirmed, suppressed, unconfirmed = {}, tot('suppressed'), []
    viols = sorted((v for r in R for v in r['viols']), key=lambda v: (len(v['spec']['faults']) + len(v['spec']['jobfaults']), len(v['spec']['decisions'])))
    for k, v in enumerate(viols):
        cls = v['cls']
        if cls in confirmed:
            continue
        f = '%s/v%d.replay' % (out, k)
        with open(f, 'w') as h:
            h.write(describe(v['spec'], v['text']))
        a, b = again(f), again(f)
        if a['cls'] == b['cls'] == cls and a['hash'] == b['hash']:
            if is_known(cls, a['text'], mine):
                suppressed += 1
                continue
            dst = verif + '/build/replays'
            os.makedirs(dst, exist_ok=True)
            g = '%s/%s-%s-%s.replay' % (dst, prop, cls, hashlib.sha1(open(f, 'rb').read()).hexdigest()[:10])
            shutil.copy(f, g)
            confirmed[cls] = (g, a['text'])
        else:
            unconfirmed.append('%s: %s did not recur in a fresh process' % (f, cls))
    findings = []
    for k in mine:
        r = again(verif + '/' + k['plan'])
        if r['cls'] == k['cls'] and re.search(k['pattern'], r['text']):
            findings.append(k['text'])
    cov = {
        'evaluations': tot('runs'), 'distinct_nontrivial': len(seen),
        'rule': 'One evaluation is one simulated run of a script on its input (and of the same command again if it ended with an error): a seed fixes script, options, input, schedule and faults. '
                'Distinct: the fingerprint of (options, sequence of processes that were given the processor, faults) was not seen before in this check; every run has several processes or a fault.',
        'samples': [s for r in R for s in r['samples']][:6],
        'runs_per_script_and_mode': merged('per'), 'runs_per_hour': int(tot('runs') / max(search_s, 1e-6) * 3600), 'seeds': {'first': start, 'inputs': tot('seeds'), 'workers': jobs},
        'simulated_seconds': tot('sim'), 'commands_executed': tot('ops'), 'scheduling_points': tot('yields'), 'faults_fired': merged('faults'), 'distinct_interleavings': len(seen),
        'failures_reported_by_the_script': tot('reported'), 'failures_without_effect_on_the_result': tot('masked'), 'runs_repeated_after_a_failure': tot('rerun'),
        'repeatability': {'runs_executed_again': tot('rechecked'), 'not_repeatable': tot('mismatches')},
        'runs_without_verdict': {'harness': len(errors), 'workers_lost': dead},
        'violations_unconfirmed': unconfirmed[:5], 'suppressed_as_known': suppressed, 'known_findings_reproduced': findings, 'notes': [e[-300:] for e in errors[:5]]}
    return cov, unconfirmed + errors, confirmed, findings


if __name__ == '__main__':
    print(json.dumps(replay(sys.argv[1])))
