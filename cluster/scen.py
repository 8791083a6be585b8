"""The scripts that are run on the simulated cluster, their inputs (from a seed) and what their result
must be."""
import math, os, random, re, shutil, struct, subprocess
from collections import Counter

NOBODY = 65534
WORDS = 'la casa el perro un gato verde grande mesa roja come duerme aqui muy y no'.split()
TRANS = 'the house the dog a cat green big table red eats sleeps here very and not'.split()


def native(cl, prog, args, stdin=b'', cwd=None, share='share'):
    e = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'HOME': cwd or '/', 'SIM_SHARE': cl.root + '/' + share}
    kw = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if os.getuid() == 0 else {}
    p = subprocess.run([cl.real.get(prog, prog)] + args, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=e, timeout=60, **kw)
    return p.returncode, p.stdout, p.stderr


def read(f):
    with open(f, 'rb') as h:
        return h.read()


def close(a, b, rel, ab=1e-6):
    return a == b or abs(a - b) <= max(ab, rel * max(abs(a), abs(b))) or (math.isnan(a) and math.isnan(b))


def num(w):
    try:
        return float(w)
    except ValueError:
        return None


def diff_lines(a, b, rel, what):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else None
        y = b[i] if i < len(b) else None
        if x is None or y is None:
            return '%s: line %d is %r, and should be %r' % (what, i + 1, x, y)
        if x == y:
            continue
        p, q = x.split(), y.split()
        if rel and len(p) == len(q) and all(u == v or (num(u) is not None and num(v) is not None and close(num(u), num(v), rel)) for u, v in zip(p, q)):
            continue
        return '%s: line %d is %r, and should be %r' % (what, i + 1, x[:200], y[:200])
    return None


def lines(b):
    return b.decode(errors='surrogateescape').split('\n')[:-1] if b.endswith(b'\n') else b.decode(errors='surrogateescape').split('\n') if b else []


class Case:
    """name, prog (script), args, outputs {file: comparison}"""
    rel = 0
    weight = 3       # how often it is run
    fanout = 6       # runs with faults for each input
    share = 'share'  # which modules are configured
    prop = 'P23'
    kept = True      # the command leaves its input as it is

    def __init__(self, cl, seed, d):
        self.cl, self.d, self.seed = cl, d, seed
        self.rng = random.Random('%s-%s' % (type(self).__name__, seed))
        self.want = {}
        self.build()

    def put(self, name, text):
        with open(self.d + '/' + name, 'w', errors='surrogateescape') as h:
            h.write(text)
        os.chmod(self.d + '/' + name, 0o644)

    def sents(self, n, lo=1, hi=7, words=None):
        w = words or WORDS[:self.rng.choice((3, 8, 16))]
        return [' '.join(self.rng.choice(w) for _ in range(self.rng.randint(lo, hi))) for _ in range(n)]

    def pairs(self, n, lo=1, hi=6):
        r, S, T = self.rng, [], []
        k = r.choice((3, 8, 16))
        for _ in range(n):
            i = [r.randrange(k) for _ in range(r.randint(lo, hi))]
            j = list(i)
            if len(j) > 1 and r.random() < .4:
                a = r.randrange(len(j) - 1)
                j[a], j[a + 1] = j[a + 1], j[a]
            if r.random() < .2:
                j.append(r.randrange(k))
            S.append(' '.join(WORDS[x] for x in i))
            T.append(' '.join(TRANS[x] for x in j))
        return S, T

    def common(self):
        """directories and processors"""
        return ['-pr', str(self.np)]

    def argv(self, w):
        return ['/usr/bin/bash', self.cl.root + '/bin/' + self.script] + [a.replace('@', w) for a in self.args]

    def prepare(self, w):
        """before the command is run"""

    def check(self, w, again=False):
        """None, or what is wrong with the result (again: of a run after a failed one)"""
        for f, want in self.want.items():
            try:
                got = read(w + '/' + f)
            except OSError:
                return '%s is missing' % f
            p = self.compare(f, got, want)
            if p:
                return p
        return None

    def compare(self, f, got, want):
        a, b = lines(got), lines(want)
        if f in self.unordered:
            a, b = sorted(a), sorted(b)
        return diff_lines(a, b, self.rel, f)

    unordered = ()


class Ngram(Case):
    script = 'thot_pbs_get_ngram_counts'

    def build(self):
        r = self.rng
        n = r.randint(3, 14)
        self.np = r.randint(1, min(4, n))
        order = r.randint(1, 4)
        s = self.sents(n)
        self.put('corpus', ''.join(x + '\n' for x in s))
        self.args = ['-pr', str(self.np), '-c', '@/in/corpus', '-n', str(order), '-o', '@/out/counts', '-tdir', '@/tmp', '-sdir', '@/sd']
        if r.random() < .5:
            self.args += ['-f', str(r.randint(1, 5))]
        unk = r.random() < .3
        if unk:
            self.args.append('-unk')
        self.want = {'out/counts': self.counts(s, order, unk)}

    unordered = ('out/counts',)

    def counts(self, s, order, unk):
        if not s:
            return b'</s> 0 0\n<s> 0 0\n'
        c, words, seen = Counter(), 0, set()
        for x in s:
            t = x.split()
            if unk:
                u = []
                for w in t:
                    u.append(w if w in seen else '<unk>')
                    seen.add(w)
                t = u
            words += len(t) + 2
            c[('<s>',)] += 1
            c[('</s>',)] += 1
            for w in t:
                c[(w,)] += 1
            t = ['<s>'] + t + ['</s>']
            for k in range(2, order + 1):
                for j in range(len(t) - k + 1):
                    c[tuple(t[j:j + k])] += 1
        out = []
        for g, v in c.items():
            out.append('%s %d %d\n' % (' '.join(g), c[g[:-1]] if len(g) > 1 else words, v))
        return ''.join(out).encode()


class NgramMr(Ngram):
    script = 'thot_get_ngram_counts_mr'

    def build(self):
        Ngram.build(self)
        a = self.args
        self.np = 1
        c, n = a[a.index('-c') + 1], a[a.index('-n') + 1]
        f = self.rng.randint(1, 5)
        self.args = ['-c', c, '-n', n, '-f', str(f), '-tdir', '@/tmp'] + (['-unk'] if '-unk' in a else [])
        self.want = {'.out.M': self.want['out/counts']}

    unordered = ('.out.M',)


class A3:
    """alignments in GIZA format"""
    def a3(self, n, maxlen=5):
        out = []
        r = self.rng
        for k in range(n):
            S, T = self.sents(2, 1, maxlen)
            s, t = S.split(), T.split()
            al = {}
            for j in range(1, len(t) + 1):
                i = r.choice([0] + list(range(1, len(s) + 1)) * 2) if r.random() < .9 else 0
                al.setdefault(i, []).append(j)
            l = 'NULL ({ %s}) ' % ''.join('%d ' % j for j in al.get(0, []))
            for i in range(1, len(s) + 1):
                l += '%s ({ %s}) ' % (s[i - 1], ''.join('%d ' % j for j in al.get(i, [])))
            out.append('# %d\n%s\n%s\n' % (k + 1, T, l))
        return out

    def a3_pair(self, n, maxlen=5):
        """two alignments of the same sentences, in opposite directions"""
        r, X, Y = self.rng, [], []
        for k in range(n):
            S, T = self.sents(2, 1, maxlen)
            for s, t, o in ((S.split(), T.split(), X), (T.split(), S.split(), Y)):
                al = {}
                for j in range(1, len(t) + 1):
                    al.setdefault(r.choice([0] + list(range(1, len(s) + 1)) * 2), []).append(j)
                l = 'NULL ({ %s}) ' % ''.join('%d ' % j for j in al.get(0, []))
                for i in range(1, len(s) + 1):
                    l += '%s ({ %s}) ' % (s[i - 1], ''.join('%d ' % j for j in al.get(i, [])))
                o.append('# %d\n%s\n%s\n' % (k + 1, ' '.join(t), l))
        return X, Y


class Phr(Case, A3):
    script = 'thot_pbs_gen_phr_model'
    rel = 1e-4

    def build(self):
        r = self.rng
        n = r.randint(2, 9)
        self.np = r.randint(1, min(4, n))
        self.put('a3', ''.join(self.a3(n)))
        m = r.randint(1, 5)
        opt = ['-g', '@/in/a3', '-m', str(m)]
        for o in ('-brf', '-mon', '-nospur', '-ms'):
            if r.random() < (.3 if o == '-brf' else .12):
                opt.append(o)
        self.args = ['-pr', str(self.np)] + opt + ['-o', '@/out/m', '-T', '@/tmp', '-sdir', '@/sd']
        rc, o, e = native(self.cl, 'thot_gen_phr_model', [a.replace('@/in', self.d) for a in opt] + ['-o', self.d + '/ref'], cwd=self.d)
        self.ok = rc == 0
        self.want = {'out/m.ttable': read(self.d + '/ref.ttable')}
        if '-brf' in opt:
            self.want['out/m.seglentable'] = read(self.d + '/ref.seglentable')

    unordered = ('out/m.ttable', 'out/m.seglentable')


class PhrMr(Phr):
    script = 'thot_gen_phr_model_mr'

    def build(self):
        Phr.build(self)
        self.np = 1
        a = self.args[2:]
        self.args = a[:a.index('-T')] + ['-T', '@/tmp']


class AligOp(Case, A3):
    script = 'thot_pbs_alig_op'

    def build(self):
        r = self.rng
        n = r.randint(2, 9)
        self.np = r.randint(1, min(4, n))
        X, Y = self.a3_pair(n)
        self.put('x', ''.join(X))
        self.put('y', ''.join(Y))
        op = r.choice(('-and', '-or', '-sum', '-sym1', '-sym2', '-grd'))
        self.args = ['-pr', str(self.np), '-g', '@/in/x', op, '@/in/y', '-o', '@/out/a', '-T', '@/tmp', '-sdir', '@/sd']
        native(self.cl, 'thot_alig_op', ['-g', self.d + '/x', op, self.d + '/y', '-o', self.d + '/ref'], cwd=self.d)
        self.want = {'out/a.A3.final': read(self.d + '/ref.A3.final')}


class Ttable:
    def ttable(self):
        r = self.rng
        rows, seen = [], set()
        for _ in range(r.randint(1, 30)):
            s, t = ' '.join(r.choice(WORDS[:4]) for _ in range(r.randint(1, 3))), ' '.join(r.choice(TRANS[4:8]) for _ in range(r.randint(1, 2)))
            if (s, t) in seen:
                continue
            seen.add((s, t))
            rows.append((s, t, r.randint(1, 9)))
        tot = Counter()
        for s, t, c in rows:
            tot[s] += c
        return [(s, t, tot[s], c) for s, t, c in rows]

    def best(self, rows, n):
        """what remains for each target phrase: the n best, and the sum of the rest"""
        by = {}
        for x in rows:
            by.setdefault(x[1], []).append(x)
        return {t: (sorted((x[3] for x in v), reverse=True)[:n], sum(sorted((x[3] for x in v), reverse=True)[n:]), set((x[0], x[2], x[3]) for x in v)) for t, v in by.items()}

    def compare(self, f, got, want):
        left = {t: ([], [0.0]) for t in self.exp}
        for l in lines(got):
            p = [x.strip() for x in l.split('|||')]
            if len(p) != 3 or p[1] not in left or len(p[2].split()) != 2:
                return '%s has the line %r' % (f, l)
            a, c = p[2].split()
            if p[0] == '<UNUSED_WORD>':
                left[p[1]][1].append(float(c))
            elif (p[0], float(a), float(c)) not in self.exp[p[1]][2]:
                return '%s has the line %r, which is not in the table' % (f, l)
            else:
                left[p[1]][0].append(float(c))
        for t, (cs, rest, _) in self.exp.items():
            if sorted(left[t][0], reverse=True) != cs or not close(sum(left[t][1]), rest, 1e-5):
                return '%s: for the target phrase %r there are the counts %s and %s for the rest, and should be %s and %s' % (f, t, sorted(left[t][0], reverse=True), sum(left[t][1]), cs, rest)
        return None


class NbestTrg(Ttable, Case):
    script = 'thot_pbs_get_nbest_for_trg'

    def build(self):
        r = self.rng
        self.np = 1
        rows = self.ttable()
        self.put('table', ''.join('%s ||| %s ||| %d %d\n' % x for x in rows))
        n = r.randint(1, 4)
        self.args = ['-t', '@/in/table', '-n', str(n), '-p', '-T', '@/tmp', '-sdir', '@/sd', '-o', '@/out/table']
        self.exp = self.best(rows, n)
        self.want = {'out/table': b''}


class FilterTtable(Ttable, Case):
    script = 'thot_pbs_filter_ttable'

    def build(self):
        r = self.rng
        self.np = 1
        rows = self.ttable()
        self.put('table', ''.join('%s ||| %s ||| %d %d\n' % x for x in rows))
        test = self.sents(r.randint(1, 4), 1, 5, TRANS[4:8])
        self.put('test', ''.join(x + '\n' for x in test))
        n = r.randint(1, 4)
        self.args = ['-t', '@/in/table', '-c', '@/in/test', '-n', str(n), '-T', '@/tmp', '-sdir', '@/sd', '-o', '@/out/table']
        t = [' ' + x + ' ' for x in test]
        self.exp = self.best([x for x in rows if any(' ' + x[1] + ' ' in y for y in t)], n)
        self.want = {'out/table': b''}


class Perp(Case):
    script = 'thot_pbs_ilm_perp'
    rel = 1e-4

    def build(self):
        r = self.rng
        self.np = 1
        s = self.sents(r.randint(2, 8))
        order = r.randint(1, 3)
        self.put('lm', Ngram.counts(self, s, order, True).decode())
        self.put('lm.weights', '%d 3 10 %s\n' % (order, ' '.join('0.5' for _ in range(3 * order))))
        self.put('test', ''.join(x + '\n' for x in self.sents(r.randint(1, 6))))
        a = ['-lm', '@/in/lm', '-c', '@/in/test', '-n', str(order)]
        self.args = a + ['-o', '@/out/perp', '-tdir', '@/tmp', '-sdir', '@/sd']
        rc, o, e = native(self.cl, 'thot_ilm_perp', [x.replace('@/in', self.d) for x in a], cwd=self.d)
        assert rc == 0, e
        self.want = {'out/perp': o}

    def compare(self, f, got, want):
        strip = lambda b: [l for l in lines(b) if 'time' not in l.lower()]
        return diff_lines(strip(got), strip(want), self.rel, f)


class Toy:
    """the models that the server worlds use"""
    def toy(self):
        return self.cl.root + '/share/toy'


class Decoder(Case, Toy):
    script = 'thot_decoder'

    def words(self):
        w = set()
        for l in lines(read(self.toy() + '/tm/main/src_trg_swm.svcb')):
            w.add(l.split()[1])
        return sorted(w - {'NULL', 'UNKNOWN_WORD', '<UNUSED_WORD>'})

    def build(self):
        r = self.rng
        t = self.toy()
        n = r.randint(2, 7)
        self.np = r.randint(1, min(4, n))
        self.put('test', ''.join(x + '\n' for x in self.sents(n, 1, 4, r.sample(self.words(), 8))))
        o = ['-c', t + '/server.cfg', '-t', '@/in/test']
        for x, v in (('-W', (1, 5)), ('-S', (1, 10)), ('-nomon', (0, 2)), ('-A', (2, 7))):
            if r.random() < .3:
                o += [x, str(r.randint(*v))]
        wg = r.random() < .5
        self.args = ['-pr', str(self.np)] + o + ['-o', '@/out/trans', '-sdir', '@/sd'] + (['-wg', '@/out/wg'] if wg else [])
        rc, out, e = native(self.cl, 'thot_ms_dec', [a.replace('@/in', self.d) for a in o] + ['-wg', self.d + '/refwg'], cwd=self.d)
        self.ok = rc == 0
        self.want = {'out/trans': out}
        if wg:
            for k in range(1, n + 1):
                self.want['out/wg_%06d.wg' % k] = read(self.d + '/refwg_%06d.wg' % k)
                self.want['out/wg_%06d.idx' % k] = read(self.d + '/refwg_%06d.idx' % k)


class Aligner(Decoder):
    script = 'thot_aligner'

    def build(self):
        r = self.rng
        t = self.toy()
        n = r.randint(2, 6)
        self.np = r.randint(1, min(4, n))
        self.put('test', ''.join(x + '\n' for x in self.sents(n, 1, 3, r.sample(self.words(), 8))))
        native(self.cl, 'thot_ms_dec', ['-c', t + '/server.cfg', '-t', self.d + '/test', '-o', self.d + '/hyp'], cwd=self.d)
        ref = lines(native(self.cl, 'thot_ms_dec', ['-c', t + '/server.cfg', '-t', self.d + '/test'], cwd=self.d)[1])
        r.random()
        self.put('ref', ''.join(x + '\n' for x in ref))
        o = ['-c', t + '/server.cfg', '-t', '@/in/test', '-r', '@/in/ref']
        for x, v in (('-W', (1, 5)), ('-S', (1, 10)), ('-nomon', (0, 2)), ('-A', (2, 7))):
            if r.random() < .3:
                o += [x, str(r.randint(*v))]
        self.args = ['-pr', str(self.np)] + o + ['-o', '@/out/al', '-sdir', '@/sd']
        rc, out, e = native(self.cl, 'thot_ms_alig', [a.replace('@/in', self.d) for a in o], cwd=self.d)
        self.ok = rc == 0
        self.want = {'out/al': out}

    def compare(self, f, got, want):
        # the sentences are numbered within each fragment
        strip = lambda b: re.sub(rb'(?m)^# \d+ ;', b'# ;', b)
        return diff_lines(lines(strip(got)), lines(strip(want)), 1e-4, f)


class Sw(Case):
    weight = 2
    fanout = 4
    script = 'thot_pbs_gen_batch_sw_model'
    rel = 2e-3
    lex, alig, keys = 'hmm_lexnd', 'hmm_alignd', 3

    def build(self):
        r = self.rng
        n = r.randint(2, 8)
        self.np = r.randint(1, min(3, n))
        if r.random() < .3:
            self.share, self.lex, self.alig, self.keys = 'ibm2', 'ibm_lexnd', 'ibm2_alignd', 4
        S, T = self.pairs(n)
        self.put('s', ''.join(x + '\n' for x in S))
        self.put('t', ''.join(x + '\n' for x in T))
        it = r.randint(1, 3)
        o = []
        for x in ('-lf', '-af', '-np'):
            if r.random() < .3:
                o += [x, '0.%d' % r.randint(0, 4)]
        self.args = ['-pr', str(self.np), '-s', '@/in/s', '-t', '@/in/t', '-n', str(it)] + o + ['-o', '@/out/m', '-tdir', '@/tmp', '-sdir', '@/sd']
        if r.random() < .4:
            self.args.append('-shu')
        if r.random() < .4:
            self.args += ['-lc', str(r.randint(1, 4))]
        rc, out, e = native(self.cl, 'thot_gen_sw_model', ['-s', self.d + '/s', '-t', self.d + '/t', '-n', str(it)] + o + ['-o', self.d + '/ref'], cwd=self.d, share=self.share)
        self.ok = rc == 0
        self.prefix = 'out/m'
        self.want = {}

    def model(self, p):
        voc = {}
        for e in ('svcb', 'tvcb'):
            voc[e] = {int(l.split()[0]): l.split()[1] for l in lines(read(p + '.' + e))}
        lex = {}
        b = read(p + '.' + self.lex)
        if len(b) % 16:
            return None
        for k in range(0, len(b), 16):
            s, t, c, d = struct.unpack('IIff', b[k:k + 16])
            lex[(voc['svcb'].get(s, s), voc['tvcb'].get(t, t))] = (c, d)
        al = {}
        b = read(p + '.' + self.alig)
        n = 4 * self.keys + 8
        if len(b) % n:
            return None
        for k in range(0, len(b), n):
            x = struct.unpack('I' * self.keys + 'ff', b[k:k + n])
            al[x[:self.keys]] = x[self.keys:]
        sl = lines(read(p + '.slmodel')) if os.path.exists(p + '.slmodel') else None
        return {'lex': lex, 'alig': al, 'slmodel': sl, 'svcb': sorted(voc['svcb'].values()), 'tvcb': sorted(voc['tvcb'].values())}

    def lengths(self, s, t):
        by = {}
        S, T = [[len(l.split()) for l in lines(read(f))] for f in (s, t)]
        for a, b in zip(S, T):
            by.setdefault(a, []).append(b)
        o = ['Weighted incr. gaussian sentence length model...', 'numsents: %d ; slensum: %d ; tlensum: %d' % (len(S), sum(S), sum(T))]
        for a, l in by.items():
            m = sum(l) / len(l)
            o.append('%d %d %f %f %f' % (a, len(l), len(l), m, sum((x - m) ** 2 for x in l)))
        return o

    def check(self, w, again=False):
        return self.same_model(w + '/' + self.prefix, self.d + '/ref', self.lengths(self.d + '/s', self.d + '/t'))

    def same_model(self, p, ref, lengths):
        try:
            got = self.model(p)
        except (OSError, IndexError, ValueError) as e:
            return 'the model is not complete: %s' % e
        if got is None:
            return 'a table of the model is cut'
        want = self.model(ref)
        p = diff_lines(sorted(got['slmodel'] or []), sorted(lengths), 1e-5, 'the sentence length model')
        if p:
            return p
        for v in ('svcb', 'tvcb'):
            if got[v] != want[v]:
                return 'the vocabulary .%s is %s, and should be %s' % (v, got[v][:20], want[v][:20])
        for t in ('lex', 'alig'):
            for k in sorted(set(got[t]) | set(want[t]), key=str):
                a, b = got[t].get(k), want[t].get(k)
                if a is None or b is None:
                    z = (a or b)[0]
                    if z < math.log(1e-4):
                        continue
                    return 'the %s table has %s for %s, and should have %s' % (t, a, k, b)
                if not all(close(x, y, self.rel, 2e-3) for x, y in zip(a, b)):
                    return 'the %s table has %s for %s, and should have %s' % (t, a, k, b)
        return None


class SwMr(Sw):
    script = 'thot_gen_batch_sw_model_mr'
    weight = 1

    def build(self):
        Sw.build(self)
        a = [x for x in self.args[2:] if x != '-shu']
        if '-lc' in a:
            a[a.index('-lc')] = '-c'
        else:
            a += ['-c', str(self.rng.randint(1, 5))]
        del a[a.index('-sdir'):a.index('-sdir') + 2]
        self.np = 1
        self.args = a


class BestAlig(Sw):
    script = 'thot_pbs_gen_best_sw_alig'

    def build(self):
        r = self.rng
        Sw.build(self)
        shu = '-shu' in self.args
        self.args = ['-pr', str(self.np), '-sw', '@/in/ref', '-s', '@/in/s', '-t', '@/in/t', '-o', '@/out/b', '-tdir', '@/tmp', '-sdir', '@/sd'] + (['-shu'] if shu else [])
        S, T = lines(read(self.d + '/s')), lines(read(self.d + '/t'))
        o = ''.join('%s ||| %s\n' % x for x in zip(S, T)).encode()
        rc, o, e = native(self.cl, 'thot_calc_swm_lgprob', ['-sw', self.d + '/ref', '-P', '-', '-max'], o, cwd=self.d, share=self.share)
        self.ok = rc == 0
        self.want = {'out/b.bestal': o}
        self.shu = shu

    def check(self, w, again=False):
        return Case.check(self, w)

    def compare(self, f, got, want):
        return self.same_alignments(f, got, want)

    def same_alignments(self, f, got, want):
        k = lambda b: [x for x in re.split(r'(?m)^(?=#)', b.decode(errors='surrogateescape')) if x]
        a, b = k(got), k(want)
        if self.shu:
            a, b = sorted(a), sorted(b)
        for x, y in zip(a, b):
            if x != y:
                return '%s has the alignment %r, and should have %r' % (f, x, y)
        if len(a) != len(b):
            return '%s has %d alignments, and should have %d' % (f, len(a), len(b))
        return None


class System:
    """what the commands that train and prepare a system have in common"""
    prop = 'P24'

    def lm_files(self, d, name, s, order, unk):
        """the files of a language model"""
        return {name: Ngram.counts(self, s, order, unk), name + '.weights': ('%d 3 10%s\n' % (order, ' 0.5' * (3 * order))).encode(), name + '.wp': ''.join(x + '\n' for x in s).encode()}

    def config(self, w, lm, tm):
        """a configuration with these models; what the decoder makes of it"""
        t = read(self.cl.root + '/share/cfg_templates/thot_basic.cfg').decode().replace('<lm_file_path>', lm).replace('<tm_file_path>', tm).replace('<cf_file_path>', '_none_')
        return t

    def decodes(self, w, lm, tm, sents):
        """None, or why a decoder cannot use the models"""
        c = w + '/.check'
        os.makedirs(c, exist_ok=True)
        os.chmod(c, 0o777)
        with open(c + '/cfg', 'w') as h:
            h.write(self.config(w, lm, tm))
        with open(c + '/test', 'w') as h:
            h.write(''.join(x + '\n' for x in sents))
        rc, o, e = native(self.cl, 'thot_ms_dec', ['-c', c + '/cfg', '-t', c + '/test'], cwd=c)
        shutil.rmtree(c)
        if rc:
            return 'the decoder cannot use the result: %s' % e.decode(errors='replace').strip().split('\n')[-2:]
        if len(lines(o)) != len(sents):
            return 'the decoder gives %d translations of %d sentences' % (len(lines(o)), len(sents))
        return None

    def desc(self, path, first, want):
        """the lines of a descriptor: the entries and the rest must be the ones that are wanted"""
        l = lines(read(path))
        if l[:1] != [first] or l[1:] != want:
            return '%s has the lines %s, and should have %s' % (os.path.basename(path), l, [first] + want)
        return None


LMF = '$(libdir)/incr_jel_mer_ngram_lm_factory.so'
TMF = '$(libdir)/incr_phrase_model_factory.so'


class LmTrain(System, Case):
    script = 'thot_lm_train'
    weight = 3

    def build(self):
        r = self.rng
        n = r.randint(1, 10)
        self.np = r.randint(1, min(3, n))
        self.order = r.randint(1, 3)
        self.s = self.sents(n)
        if r.random() < .2:
            self.s[r.randrange(n)] = ''
        if r.random() < .05:
            self.s = []
        self.put('corpus', ''.join(x + '\n' for x in self.s))
        self.unk = bool(self.s) and r.random() < .4
        self.add = r.random() < .3
        if self.add:
            # a model to which another one is added
            self.kept = False
            self.old, self.oldorder = self.sents(r.randint(1, 4)), r.randint(1, 3)
            os.makedirs(self.d + '/sys/main')
            for f, b in self.lm_files(self.d, 'sys/main/trg.lm', self.old, self.oldorder, False).items():
                self.put(f, b.decode())
            self.put('sys/lm_desc', 'thot lm descriptor # tool: thot_lm_train\n%s main/trg.lm main # corpus file: old\n' % LMF)
            self.put('sys/lm_desc.weights', '1\n')
            self.put('sys/lm_desc.wp', ''.join(x + '\n' for x in self.old))
        self.args = ['-pr', str(self.np), '-c', '@/in/corpus', '-a' if self.add else '-o', '@/in/sys' if self.add else '@/out/lm', '-n', str(self.order)]
        if r.random() < .5:
            self.args += ['-f', str(r.randint(1, 5))]
        if self.unk:
            self.args.append('-unk')
        self.args += ['-tdir', '@/tmp', '-sdir', '@/sd']

    def one(self, p, s, order, unk):
        for f, want in self.lm_files(None, '', s, order, unk).items():
            try:
                got = read(p + f)
            except OSError:
                return 'trg.lm%s is missing' % f
            a, b = lines(got), lines(want)
            if f != '.weights':
                a, b = sorted(a), sorted(b)
            x = diff_lines(a, b, 0, 'trg.lm' + f)
            if x:
                return x

    def check(self, w, again=False):
        d = w + ('/in/sys' if self.add else '/out/lm')
        want = ['%s main/trg.lm main # corpus file: %s' % (LMF, 'old' if self.add else w + '/in/corpus')]
        try:
            if self.add:
                # what an attempt that failed left may be there too
                l = lines(read(d + '/lm_desc'))[2:]
                k = [x for x in sorted(os.listdir(d)) if x.startswith('additional_')]
                if not l or not k or not again and (len(l) != 1 or k != ['additional_1']):
                    return 'lm_desc has %d additional models, and there are the directories %s' % (len(l), k)
                for x in l:
                    m = x.split()[2] if len(x.split()) > 2 else '?'
                    if m not in k:
                        return 'lm_desc has the line %r' % x
                    want.append('%s %s/trg.lm %s # corpus file: %s/in/corpus' % (LMF, m, m, w))
                    p = self.one(d + '/' + m + '/trg.lm', self.s, self.order, self.unk)
                    if p:
                        return p
                p = self.one(d + '/main/trg.lm', self.old, self.oldorder, False)
            else:
                p = self.one(d + '/main/trg.lm', self.s, self.order, self.unk)
            if p:
                return p
            p = self.desc(d + '/lm_desc', 'thot lm descriptor # tool: thot_lm_train', want)
            if p:
                return p
            n = lines(read(d + '/lm_desc.weights'))
            if not again and n != ['1'] * len(want):
                return 'lm_desc.weights has %s for %d models' % (n, len(want))
            wp = sorted(lines(read(d + '/lm_desc.wp')))
        except OSError as e:
            return 'a file is missing: %s' % e
        if not again:
            p = diff_lines(wp, sorted(self.s + (self.old if self.add else [])), 0, 'lm_desc.wp')
            if p:
                return p
            return self.decodes(w, d + '/lm_desc', self.cl.root + '/share/toy/tm/tm_desc', ['la casa'])
        return None


class TmTrain(System, A3, BestAlig, Ttable, Case):
    script = 'thot_tm_train'
    weight = 1
    fanout = 4
    rel = 5e-3
    shu = True

    def build(self):
        r = self.rng
        n = r.randint(2, 6)
        self.np = r.randint(1, min(2, n))
        S, T = self.pairs(n, 1, 5)
        self.put('s', ''.join(x + '\n' for x in S))
        self.put('t', ''.join(x + '\n' for x in T))
        it, self.m, self.to = r.randint(1, 2), r.randint(1, 5), r.randint(1, 5)
        self.args = ['-pr', str(self.np), '-s', '@/in/s', '-t', '@/in/t', '-o', '@/out/tm', '-nit', str(it), '-m', str(self.m), '-to', str(self.to), '-tdir', '@/tmp', '-sdir', '@/sd']
        o, x = [], r.random()
        self.ao = 'sym1'
        self.g = self.dict = False
        for x in ('-af', '-np'):
            if r.random() < .3:
                o += [x, '0.%d' % r.randint(0, 4)]
        self.args += o
        if r.random() < .5:
            self.ao = r.choice(('and', 'or', 'sum', 'sym1', 'sym2', 'grd'))
            self.args += ['-ao', self.ao]
        unk = r.random() < .25
        if r.random() < .15:
            self.g = True
            self.put('g', ''.join(self.a3(r.randint(2, 5))))
            self.args += ['-g', '@/in/g']
        elif r.random() < .15:
            self.dict = True
            self.args.append('-dict')
        # what it trains with
        self.u = {}
        for f, l in (('s', S), ('t', T)):
            l = l + (['UNKNOWN_WORD'] if unk else [])
            self.u[f] = l
            self.put('u' + f, ''.join(x + '\n' for x in l))
        if unk:
            self.args.append('-unk')
        for m, s, t in (('swm', 'ut', 'us'), ('invswm', 'us', 'ut')):
            native(self.cl, 'thot_gen_sw_model', ['-s', self.d + '/' + s, '-t', self.d + '/' + t, '-n', str(it)] + o + ['-o', self.d + '/ref_' + m], cwd=self.d)

    def check(self, w, again=False):
        try:
            return self.stages(w, w + '/out/tm/main/src_trg', w + '/.check') or \
                self.decodes(w, self.cl.root + '/share/toy/lm/lm_desc', w + '/out/tm/tm_desc', self.u['s'][:2])
        except OSError as e:
            return 'a file is missing: %s' % e
        finally:
            shutil.rmtree(w + '/.check', ignore_errors=True)

    def stages(self, w, p, c):
        """every file from the ones it is computed from"""
        os.makedirs(c, exist_ok=True)
        os.chmod(c, 0o777)
        for m, s, t in (('swm', 'ut', 'us'), ('invswm', 'us', 'ut')):
            x = self.same_model(p + '_' + m, self.d + '/ref_' + m, self.lengths(self.d + '/' + s, self.d + '/' + t))
            if x:
                return m + ': ' + x
            pairs = ''.join('%s ||| %s\n' % y for y in zip(self.u[s[1]], self.u[t[1]])).encode()
            rc, o, e = native(self.cl, 'thot_calc_swm_lgprob', ['-sw', p + '_' + m, '-P', '-', '-max'], pairs, cwd=c)
            x = self.same_alignments(m + '.bestal', read(p + '_' + m + '.bestal'), o)
            if x:
                return x
        final = read(p + '.A3.final')
        if self.g:
            want = read(self.d + '/g')
        elif self.dict:
            want = subprocess.run(['/usr/bin/python3', self.cl.root + '/bin/thot_gen_exhaustive_giza_alig', '-s', self.d + '/ut', '-t', self.d + '/us'], stdout=subprocess.PIPE, cwd=c).stdout
        else:
            native(self.cl, 'thot_alig_op', ['-g', p + '_swm.bestal', '-' + self.ao, p + '_invswm.bestal', '-o', c + '/a'], cwd=c)
            want = read(c + '/a.A3.final')
        x = diff_lines(lines(final), lines(want), 0, 'src_trg.A3.final')
        if x:
            return x
        native(self.cl, 'thot_gen_phr_model', ['-g', p + '.A3.final', '-m', str(self.m), '-o', c + '/p'], cwd=c)
        rows = []
        for l in lines(read(c + '/p.ttable')):
            s, t, n = [y.strip() for y in l.split('|||')]
            rows.append((s, t) + tuple(float(y) for y in n.split()))
        self.exp = self.best(rows, self.to)
        x = Ttable.compare(self, 'src_trg.ttable', read(p + '.ttable'), b'')
        if x:
            return x
        for f, want in (('lambda', '0.01 0.01'), ('srcsegmlentable', 'Uniform'), ('trgcutstable', '0.999'), ('trgsegmlentable', 'Geometric')):
            x = diff_lines(lines(read(p + '.' + f)), [want], 0, 'src_trg.' + f)
            if x:
                return x
        return self.desc(w + '/out/tm/tm_desc', 'thot tm descriptor # tool: thot_tm_train', ['%s main/src_trg main # source file: %s/in/s ; target file: %s/in/t' % (TMF, w, w)])

    compare = Case.compare


class Scratch(System, Case):
    """a system without training data"""
    script = 'thot_sys_from_scratch'
    weight = 1

    def build(self):
        r = self.rng
        self.np = 1
        self.args = ['-o', '@/out/sys', '-tdir', '@/tmp', '-sdir', '@/sd']
        self.order = r.randint(1, 4)
        self.args += ['-n', str(self.order), '-nit', str(r.randint(1, 3))]
        self.s = self.sents(2)

    def check(self, w, again=False):
        d = w + '/out/sys'
        try:
            t = self.config(w, d + '/lm/lm_desc', d + '/tm/tm_desc')
            return self.desc(d + '/lm/lm_desc', 'thot lm descriptor # tool: thot_lm_train', ['%s main/trg.lm main # corpus file: %s/empty_corpus/trg.train' % (LMF, d)]) or \
                self.desc(d + '/tm/tm_desc', 'thot tm descriptor # tool: thot_tm_train', ['%s main/src_trg main # source file: %s/empty_corpus/src.train ; target file: %s/empty_corpus/trg.train' % (TMF, d, d)]) or \
                diff_lines(lines(read(d + '/lm/main/trg.lm.weights')), ['%d 3 10%s' % (self.order, ' 0.5' * (3 * self.order))], 0, 'trg.lm.weights') or \
                diff_lines(lines(read(d + '/lm/lm_desc.weights')), ['1'], 0, 'lm_desc.weights') or \
                diff_lines(lines(read(d + '/sys_from_scratch.cfg')), lines(t.encode()), 0, 'sys_from_scratch.cfg') or \
                self.decodes(w, d + '/lm/lm_desc', d + '/tm/tm_desc', self.s)
        except OSError as e:
            return 'a file is missing: %s' % e


class Prepare(System, Ttable, Case):
    script = 'thot_prepare_sys_for_test'
    weight = 2

    def build(self):
        r = self.rng
        self.np = 1
        self.lms = ['main'] + ['additional_%d' % k for k in range(1, r.choice((1, 1, 2, 3)))]
        self.tms = ['main'] + ['additional_%d' % k for k in range(1, r.choice((1, 1, 2, 3)))]
        # a model may be given without a descriptor
        self.plain = {k: r.random() < .15 for k in ('lm', 'tm')}
        if self.plain['lm']:
            self.lms = ['main']
        if self.plain['tm']:
            self.tms = ['main']
        self.files, self.rows = {}, {}
        self.files['lm/lm_desc'] = 'thot lm descriptor # tool: thot_lm_train\n' + ''.join('%s %s/trg.lm %s # corpus file: c\n' % (LMF, x, x) for x in self.lms)
        self.files['lm/lm_desc.weights'] = ''.join('0.%d\n' % r.randint(1, 9) for x in self.lms)
        self.files['lm/lm_desc.wp'] = ''.join(x + '\n' for x in self.sents(4))
        self.files['tm/tm_desc'] = 'thot tm descriptor # tool: thot_tm_train\n' + ''.join('%s %s/src_trg %s # source file: c\n' % (TMF, x, x) for x in self.tms)
        for x in self.lms:
            for f, b in self.lm_files(None, 'lm/%s/trg.lm' % x, self.sents(2), 2, False).items():
                self.files[f] = b.decode()
        for x in self.tms:
            p = 'tm/%s/src_trg' % x
            self.rows[x] = self.ttable()
            self.files[p + '.ttable'] = ''.join('%s ||| %s ||| %d %d\n' % y for y in self.rows[x])
            for e in ('.lambda', '.srcsegmlentable', '_swm.hmm_lexnd', '_invswm.slmodel'):
                self.files[p + e] = ' '.join(str(r.randrange(100)) for _ in range(4)) + '\n'
        self.test = self.sents(r.randint(1, 4), 1, 5, TRANS[4:8])
        for f, t in self.files.items():
            os.makedirs(os.path.dirname(self.d + '/sys/' + f), exist_ok=True)
            self.put('sys/' + f, t)
        self.put('test', ''.join(x + '\n' for x in self.test))
        for k in ('lm', 'tm'):
            if self.plain[k]:
                for f in [f for f in self.files if '/%s_desc' % k in f]:
                    os.unlink(self.d + '/sys/' + f)
                    del self.files[f]
        self.where = ['lm/main/trg.lm' if self.plain['lm'] else 'lm/lm_desc', 'tm/main/src_trg' if self.plain['tm'] else 'tm/tm_desc']
        self.put('cfg', self.config(None, *['@/in/sys/' + x for x in self.where]))
        self.args = ['-c', '@/in/cfg', '-t', '@/in/test', '-o', '@/out/sys', '-tdir', '@/tmp', '-sdir', '@/sd']

    def prepare(self, w):
        with open(w + '/in/cfg') as h:
            t = h.read()
        with open(w + '/in/cfg', 'w') as h:
            h.write(t.replace('@', w))

    def check(self, w, again=False):
        o = w + '/out/sys/'
        try:
            for f, want in self.files.items():
                if f.endswith('.ttable') or f.endswith('m_desc'):
                    continue
                p = diff_lines(lines(read(o + f)), lines(want.encode()), 0, f)
                if p:
                    return p
            p = self.desc(o + 'lm/lm_desc', 'thot lm descriptor', ['%s %s/trg.lm %s' % (LMF, x, x) for x in self.lms]) or \
                self.desc(o + 'tm/tm_desc', 'thot tm descriptor', ['%s %s/src_trg %s' % ('' if self.plain['tm'] else TMF, x, x) for x in self.tms])
            if p:
                return p
            t = [' ' + x + ' ' for x in self.test]
            for x in self.tms:
                self.exp = self.best([y for y in self.rows[x] if any(' ' + y[1] + ' ' in z for z in t)], 20)
                p = self.compare('the table of %s' % x, read(o + 'tm/%s/src_trg.ttable' % x), b'')
                if p:
                    return p
            p = diff_lines(lines(read(o + 'test_corpus_without_metadata')), self.test, 0, 'test_corpus_without_metadata')
            if p:
                return p
            got = [x for x in lines(read(o + 'test_specific.cfg')) if not x.startswith('# [SCRIPT_INFO]')]
            return diff_lines(got, lines(self.config(w, *[o + x for x in self.where]).encode()), 0, 'test_specific.cfg')
        except OSError as e:
            return 'a file is missing: %s' % e


class GenCfg(System, Case):
    script = 'thot_gen_cfg_file'
    weight = 1
    fanout = 3

    def build(self):
        r = self.rng
        self.np = 1
        self.put('lm_desc', 'thot lm descriptor\n')
        self.put('tm_desc', 'thot tm descriptor\n')
        self.args = [r.choice(('@/in/lm_desc', 'in/lm_desc', '_none_')), r.choice(('@/in/tm_desc', 'in/tm_desc', '_none_'))]

    def check(self, w, again=False):
        a = [x if x == '_none_' else w + '/in/' + os.path.basename(x) for x in self.args]
        return diff_lines(lines(read(w + '/.out.M')), lines(self.config(w, a[0], a[1]).encode()), 0, 'the configuration')


class Weights(Toy):
    """what thot_ll_weight_upd does, step by step"""

    def leading(self, l):
        m = re.match(r'[ \t]*(-?\d*\.?\d*)', l)
        return float(m.group(1)) if re.search(r'\d', m.group(1)) else 0.0

    def rescored(self, nbl, w):
        """the lines of a list of translations with the score that the weights give"""
        out = []
        for l in nbl[1:]:
            p = l.split()
            x = 0.0
            for i, v in enumerate(w):
                x += self.leading(p[i + 2]) * float(v) if 'e' not in p[i + 2] else float(p[i + 2]) * float(v)
            p[0] = '%d' % x if x == int(x) else '%.6g' % x
            out.append(' '.join(p))
        return out

    def best_trans(self, nbl, w):
        l = self.rescored(nbl, w)
        if not l:
            return None
        l = sorted(l, key=lambda x: (-self.leading(x), x.encode()))[0].split()
        k = len(l) - 1 - l[::-1].index('|||')
        return ' '.join(l[k + 1:])

    def tuned(self, cfg, test, ref, va, n, iters, cwd):
        """the weights; ends with an AssertionError if something cannot be computed"""
        def run(prog, args):
            rc, o, e = native(self.cl, prog, args, cwd=cwd)
            assert rc == 0, (prog, args, e[-300:])
            return o
        x = run('thot_server', ['-c', cfg, '-w']).decode().split('\n')[0].split()
        names, w = [y[:-1] for y in x[4::3]], x[5::3]
        if va:
            w = ['0' if i < len(va) and va[i] == '0' else y for i, y in enumerate(w)]
        scores, best, cur, it = [], None, None, 0
        while True:
            it += 1
            run('thot_ms_dec', ['-c', cfg, '-tmw'] + w + ['-t', test, '-wg', cwd + '/wg%d' % it])
            lists, k = [], 1
            while os.path.exists(cwd + '/wg%d_%06d.wg' % (it, k)):
                run('thot_wg_proc', ['-w', cwd + '/wg%d_%06d.wg' % (it, k), '-n', str(n), '-o', cwd + '/nb'])
                lists.append(lines(read(cwd + '/nb.nbl')))
                k += 1
            with open(cwd + '/best', 'w') as h:
                h.write(''.join(y + '\n' for y in (self.best_trans(l, w) for l in lists) if y is not None))
            q = run('thot_scorer', ['-r', ref, '-t', cwd + '/best']).decode().split()[1]
            scores.append(float(q))
            if best is None or best[0] < float(q):
                best = (float(q), w)
            if it >= iters:
                break
            b, streak = scores[0], 1
            for y in scores[1:]:
                b, streak = (y, 1) if b < y else (b, streak + 1)
            if streak >= 4:
                break
            if cur is None:
                cur = lists
            else:
                cur = [self.merged(a, b) for a, b in zip(lists, cur)]
            with open(cwd + '/nbl', 'w') as h:
                for k, l in enumerate(cur):
                    with open(cwd + '/cur%d' % k, 'w') as g:
                        g.write(''.join(y + '\n' for y in l))
                    h.write(cwd + '/cur%d\n' % k)
            o = run('thot_ll_weight_upd_nblist', ['-w'] + w + ['-va'] + (va or ['1'] * len(w)) + ['-nb', cwd + '/nbl', '-r', ref])
            w = lines(o)[-1].split()[2:]
        return names, best[1]

    def merged(self, a, b):
        names = [y.split()[-2] for y in a[0].split(' , ')]
        e = set(' '.join(['-'] + y.split()[1:]) for y in a[1:] + b[1:])
        return ['# ' + ' , '.join('%s -' % y for y in names)] + sorted(e, key=lambda y: y.encode())

    def vocabulary(self, ext, drop):
        w = set()
        for l in lines(read(self.toy() + '/tm/main/src_trg_swm.' + ext)):
            w.add(l.split()[1])
        return sorted(w - {'NULL', 'UNKNOWN_WORD', '<UNUSED_WORD>'} - drop)

    def corpora(self):
        r = self.rng
        n = r.randint(1, 3)
        s, t = self.vocabulary('svcb', set()), self.vocabulary('tvcb', set())
        self.test = self.sents(n, 1, 5, r.sample(s, min(6, len(s))))
        self.put('test', ''.join(x + '\n' for x in self.test))
        rc, o, e = native(self.cl, 'thot_ms_dec', ['-c', self.toy() + '/server.cfg', '-t', self.d + '/test'], cwd=self.d)
        assert rc == 0, e
        ref = []
        for l in lines(o):     # near what the decoder says, so that there is something to gain
            x = l.split()
            for k in range(len(x)):
                if r.random() < .3:
                    x[k] = r.choice(t)
            if len(x) > 1 and r.random() < .4:
                x.pop(r.randrange(len(x)))
            ref.append(' '.join(x))
        self.ref = ref
        self.put('ref', ''.join(x + '\n' for x in ref))
        return n


class LlUpd(Weights, Case):
    script = 'thot_ll_weight_upd'
    prop = 'P24'
    weight = 2

    def build(self):
        r = self.rng
        n = self.corpora()
        self.np = r.randint(1, n)
        cfg = self.toy() + '/server.cfg'
        nb, it = r.choice((1, 3, 10, 100)), r.choice((1, 1, 2, 2, 3, 6))
        rc, o, e = native(self.cl, 'thot_server', ['-c', cfg, '-w'], cwd=self.d)
        va = [r.choice('1110') for _ in o.decode().split('\n')[0].split()[4::3]]
        self.args = ['-pr', str(self.np), '-c', cfg, '-t', '@/in/test', '-r', '@/in/ref', '-n', str(nb), '-i', str(it), '-tdir', '@/tmp', '-sdir', '@/sd', '-va'] + va
        c = self.d + '/ref.d'
        os.makedirs(c)
        os.chmod(c, 0o777)
        _, w = self.tuned(cfg, self.d + '/test', self.d + '/ref', va, nb, it, c)
        shutil.rmtree(c)
        self.want = {'.out.M': (' '.join(w) + '\n').encode()}


class Tune(System, Weights, Ttable, Case):
    script = 'thot_smt_tune'
    weight = 2

    def build(self):
        r = self.rng
        n = self.corpora()
        self.np = r.randint(1, n)
        d = self.d + '/sys'
        shutil.copytree(self.toy(), d)
        self.lms = ['main']
        if r.random() < .35:
            self.lms.append('additional_1')
            for f, b in self.lm_files(None, 'lm/additional_1/trg.lm', self.ref, 2, False).items():
                self.put('sys/' + f, b.decode()) if os.path.isdir(os.path.dirname(d + '/' + f)) else (os.mkdir(os.path.dirname(d + '/' + f)), os.chmod(os.path.dirname(d + '/' + f), 0o755), self.put('sys/' + f, b.decode()))
            self.put('sys/lm/lm_desc.weights', '0.6\n0.4\n')
            self.put('sys/lm/lm_desc', read(d + '/lm/lm_desc').decode() + '%s additional_1/trg.lm additional_1\n' % LMF)
        self.where = ['lm/lm_desc', 'tm/tm_desc']
        self.tmpl = lambda w, o: re.sub(r'(?m)^-lm .*$', '-lm %s%s' % (o, self.where[0]), re.sub(r'(?m)^-tm .*$', '-tm %s%s' % (o, self.where[1]), read(self.toy() + '/server.cfg').decode()))
        self.put('cfg', self.tmpl('@', '@/in/sys/'))
        self.args = ['-pr', str(self.np), '-c', '@/in/cfg', '-s', '@/in/test', '-t', '@/in/ref', '-o', '@/out/sys', '-tdir', '@/tmp', '-sdir', '@/sd']
        # what the steps give, one after the other
        c = self.d + '/ref.d'
        shutil.copytree(d, c)
        subprocess.run(['chmod', '-R', 'a+rwX', c], check=True)
        lm, tm = [c + '/' + x for x in self.where]
        rc, o, e = native(self.cl, 'thot_lm_weight_upd', ['-lm', lm, '-c', self.d + '/ref', '-v'], cwd=c)
        assert rc == 0, e[-300:]
        self.rows = [(a.strip(), b.strip(), float(x.split()[0]), float(x.split()[1])) for a, b, x in (l.split('|||') for l in lines(read(c + '/tm/main/src_trg.ttable')))]
        t = [' ' + x + ' ' for x in self.test]
        self.exp = self.best([x for x in self.rows if any(' ' + x[1] + ' ' in y for y in t)], 20)
        self.files = {}
        for p, _, fs in os.walk(c):
            for f in fs:
                k = os.path.relpath(p + '/' + f, c)
                if not k.endswith('_desc') and k != 'server.cfg':
                    self.files[k] = read(p + '/' + f)
        self.c = c

    def prepare(self, w):
        with open(w + '/in/cfg') as h:
            t = h.read()
        with open(w + '/in/cfg', 'w') as h:
            h.write(t.replace('@', w))

    def check(self, w, again=False):
        o = w + '/out/sys/'
        try:
            for f, want in self.files.items():
                for g in (f,) + ((f.replace('tm/', 'tm_dev/', 1),) if f.startswith('tm/') else ()):
                    if g == 'tm_dev/main/src_trg.ttable':
                        p = self.compare('the filtered table', read(o + g), b'')
                        if p:
                            return p
                    elif read(o + g) != want:
                        return diff_lines(lines(read(o + g)), lines(want), 0, g) or g + ' differs'
            p = self.desc(o + 'lm/lm_desc', 'thot lm descriptor', ['%s %s/trg.lm %s' % (LMF, x, x) for x in self.lms]) or \
                self.desc(o + 'tm/tm_desc', 'thot tm descriptor', ['%s main/src_trg main' % TMF]) or \
                self.desc(o + 'tm_dev/tm_desc', 'thot tm descriptor', ['%s main/src_trg main' % TMF])
            if p:
                return p
            # the weights of the log-linear model, with the models that were written
            c = w + '/.check'
            os.makedirs(c, exist_ok=True)
            os.chmod(c, 0o777)
            dev = self.tmpl(w, o).replace(o + 'tm/', o + 'tm_dev/')
            p = diff_lines(lines(read(o + 'tune_loglin.cfg')), lines(dev.encode()), 0, 'tune_loglin.cfg')
            if p:
                return p
            names, ww = self.tuned(o + 'tune_loglin.cfg', self.d + '/test', self.d + '/ref', [], 100, 10, c)
            shutil.rmtree(c)
            want = self.tmpl(w, o).replace('# -tmw', '-tmw ' + ' '.join(ww))
            got = [x for x in lines(read(o + 'tuned_for_dev.cfg')) if not x.startswith('# [SCRIPT_INFO]')]
            return diff_lines(got, lines(want.encode()), 0, 'tuned_for_dev.cfg') or self.decodes(w, o + self.where[0], o + 'tm/tm_desc', self.test)
        except OSError as e:
            return 'a file is missing: %s' % e


ALL = [Ngram, NgramMr, Phr, PhrMr, AligOp, NbestTrg, FilterTtable, Perp, Decoder, Aligner, Sw, SwMr, BestAlig, LmTrain, TmTrain, Scratch, Prepare, GenCfg, LlUpd, Tune]
