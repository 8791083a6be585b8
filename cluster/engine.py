"""Deterministic simulation of a cluster that runs thot's scripts.

The scripts of /repo/utils are instantiated as their Makefile does, except that every external
command they can name is a stand-in (w.c) which asks this process what happens.  The batch system
(qsub, qstat), sleeping and the date are simulated; one process of the cluster runs at a time, and at
the calls in YIELD a seeded choice decides who goes on.  Everything runs in a scratch directory as an
unprivileged user."""
import hashlib, os, random, re, resource, select, shutil, signal, socket, struct, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('THOT_REPO', '/repo')
B = os.environ.get('SIM_BUILD', V + '/build')
NOBODY = 65534
YIELD = {'sleep', 'date', 'rm', 'cp', 'mv', 'mkdir', 'cat'}
SYSTEM = ['gawk', 'sort', 'split', 'sed', 'grep', 'uniq', 'basename', 'dirname', 'head', 'tail', 'find', 'mktemp', 'ln', 'wc', 'paste', 'touch', 'cut',
          'gzip', 'cat', 'cp', 'mv', 'rm', 'mkdir', 'ls', 'chmod', 'tr', 'expr', 'date', 'sleep', 'qsub', 'qstat', 'qrls', 'qdel', 'id', 'tee', 'true', 'false',
          'python3', 'bc', 'diff', 'cmp', 'tac', 'seq', 'hostname', 'env', 'nl', 'comm', 'join', 'awk', 'printf', 'echo', 'test', 'rmdir', 'shuf', 'uname', 'ps', 'netstat', 'kill', 'ssh', 'bash', 'sh', 'readlink', 'realpath', 'pwd', 'simwait']
# only compute or read, never fail here, and are called very often: they are not asked about
DIRECT = {'expr', 'basename', 'dirname', 'wc', 'tail', 'head', 'tr', 'sed', 'grep', 'true', 'false', 'uniq', 'cut', 'seq'}
GUARDED = {'rm', 'rmdir', 'mv', 'cp', 'mkdir', 'touch', 'ln', 'chmod', 'tee', 'split', 'mktemp', 'sort'}


class Cluster:
    """A scratch directory with the scripts, the stand-ins and the programs; used for many runs."""
    def __init__(self):
        import tempfile
        self.root = tempfile.mkdtemp(prefix='thot-cluster-')
        os.chmod(self.root, 0o755)
        r = self.root
        for d in ('bin', 'tools', 'share', 'native', 'py'):
            os.mkdir(r + '/' + d)
        for f in ('native', 'w'):
            shutil.copy(B + '/' + f, r + '/native/' + f)
            os.chmod(r + '/native/' + f, 0o755)
        self.real = {}
        for t in SYSTEM:
            p = shutil.which(t, path='/usr/bin:/bin:/usr/sbin:/sbin')
            if p or t in ('qsub', 'qstat', 'qrls', 'qdel', 'simwait'):
                self.real[t] = p or '-'
                os.symlink(p if p and t in DIRECT else r + '/native/w', r + '/tools/' + t)
        self.programs = re.findall(r'MAIN\((\w+)\)', open(B + '/registry.inc').read())
        for p in self.programs:
            os.symlink(r + '/native/native', r + '/native/' + p)
            os.symlink(r + '/native/w', r + '/bin/' + p)
            self.real[p] = r + '/native/' + p
        self.instantiate()
        os.mkdir(r + '/ibm2')
        for d, ini in (('share', 'standard'), ('ibm2', 'ibm2')):
            shutil.copy(R + '/examples/ini_files/%s.ini' % ini, r + '/%s/master.ini' % d)
            os.chmod(r + '/%s/master.ini' % d, 0o644)
        self.toy(r + '/share/toy')
        shutil.copytree(R + '/examples/cfg_templates', r + '/share/cfg_templates')
        os.chmod(r + '/share/cfg_templates', 0o755)

    def toy(self, share):
        """the models that the server worlds use"""
        shutil.copytree(V + '/sim/models/toy', share)
        for d, _, fs in os.walk(share):
            os.chmod(d, 0o755)
            for f in fs:
                p = d + '/' + f
                with open(p, 'rb') as h:
                    b = h.read()
                with open(p, 'wb') as h:
                    h.write(b.replace(b'/sim/toy', share.encode()))
                os.chmod(p, 0o644)

    def instantiate(self):
        am = open(R + '/utils/Makefile.am').read()
        names = re.findall(r'echo "(\w+)=', am[am.index('\n.sh :'):am.index('\n.pl :')])
        t = self.root + '/tools/'
        val = dict(pkgname='thot', version='0', bugreport='', bindir=self.root + '/bin/', libdir=self.root + '/lib/', ALT_LIBDIR='/', datadir=self.root + '/share',
                   LIBDIR_VARNAME='libdir', PYTHON_VERSION='3', AWK=t + 'gawk', sortpars='-S 131072', sortT='yes', sortm='yes', PIPE_FAIL='pipe_fail',
                   QSUB=t + 'qsub', QSTAT=t + 'qstat', QRLS=t + 'qrls', QSUB_TERSE_OPT='', QSTAT_J_OPT='', DISABLE_FAST_DHSLM='0', ENABLE_UPDATE_LIWEIGHTS='0',
                   ENABLE_DOWNHILL_LLW='0', KENLM_BUILD_DIR='no', FASTER_RNNLM_BUILD_DIR='no', LDB_CXX='', LEVELDB_LIB='')
        for n in names:
            if n not in val and n != 'QSUB_WORKS':
                val[n] = t + n.lower()
        for d, _, fs in os.walk(R + '/utils'):
            for f in fs:
                base, ext = os.path.splitext(f)
                text = open(d + '/' + f, errors='surrogateescape').read()
                dst = self.root + '/bin/' + base
                if ext == '.sh':
                    # whether there is a batch system is decided when a run starts
                    head = '#! /usr/bin/bash\n' + ''.join('%s="%s"\n' % (n, val[n]) for n in names if n != 'QSUB_WORKS') + 'QSUB_WORKS="${SIM_QSUB:-no}"\n' \
                        'wait() { "%ssimwait"; builtin wait "$@"; }\n' % t
                    self.put(dst, head + text)
                elif ext == '.awk':
                    self.put(dst, '#! /usr/bin/gawk -f\n' + text)
                elif ext == '.py':
                    if f == 'thot_smt_preproc.py':
                        self.put(self.root + '/bin/' + f, text)
                    self.put(dst, '#! /usr/bin/python3\n' + text)

    def put(self, f, text):
        with open(f, 'w', errors='surrogateescape') as h:
            h.write(text)
        os.chmod(f, 0o755)

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


class Escape(Exception):
    pass


def parent(pid):
    try:
        with open('/proc/%d/stat' % pid, 'rb') as f:
            return int(f.read().rsplit(b')', 1)[1].split()[1])
    except (OSError, IndexError, ValueError):
        return 0


def limits():
    resource.setrlimit(resource.RLIMIT_CPU, (200, 200))
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def used(sids):
    """processor time of the processes of these sessions, in seconds"""
    n = 0
    for d in os.listdir('/proc'):
        if d.isdigit():
            try:
                with open('/proc/%s/stat' % d) as f:
                    x = f.read().rpartition(')')[2].split()
            except OSError:
                continue
            if int(x[3]) in sids:
                n += int(x[11]) + int(x[12])
    return n / os.sysconf('SC_CLK_TCK')


def children(pid):
    try:
        with open('/proc/%d/task/%d/children' % (pid, pid)) as f:
            return [int(x) for x in f.read().split()]
    except OSError:
        r = []
        for d in os.listdir('/proc'):
            if d.isdigit() and parent(int(d)) == pid:
                r.append(int(d))
        return sorted(r)


def killtree(pid):
    todo, seen = [pid], []
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.append(p)
        try:
            os.kill(p, signal.SIGSTOP)
        except OSError:
            pass
        todo += children(p)
    for p in seen:
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass


class Thread:
    def __init__(self, name, cmd):
        self.name, self.cmd = name, cmd
        self.state = 'new'            # new, ready, sleeping, running, done
        self.conn, self.until, self.popen, self.rc, self.visible = None, 0, None, None, 0
        self.calls, self.answer = 0, None
        self.held = []                # calls of a background command that wait for its turn
        self.root, self.fd = None, None


class Run:
    """One execution of a command on the cluster."""
    def __init__(self, cl, work, argv, qsub, decide, faults=None, jobfaults=None, wall=200, share='share'):
        self.share = share
        self.cl, self.work, self.argv, self.qsub = cl, work, argv, qsub
        self.decide = decide                   # decide(n, what) -> 0..n-1
        self.faults = faults or {}             # call key -> (kind, code, n)
        self.jobfaults = dict(jobfaults or {})  # (thread, yield number) -> 'kill'|'requeue'; ('qsub', n) -> 'fail'
        self.trace, self.keys, self.seen, self.fired, self.log = [], [], {}, [], []
        self.now, self.yields, self.nsub, self.nstat, self.wall = 0, 0, 0, 0, wall
        self.threads, self.order = {}, []
        self.problem = self.slow = None
        self.roots, self.nb, self.sids = {}, 0, {}

    def env(self, job):
        c = self.cl
        return {'PATH': c.root + '/tools', 'HOME': self.work, 'SIM_SOCK': self.work + '/.sock', 'SIM_ROOT': self.work, 'SIM_SHARE': c.root + '/' + self.share,
                'SIM_QSUB': 'yes' if self.qsub else 'no', 'LC_ALL': 'C', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0'}

    def start(self, t):
        out = open(self.work + '/.out.' + t.name, 'ab')
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if os.getuid() == 0 else {}
        t.popen = subprocess.Popen(t.cmd, cwd=self.work, env=self.env(t.name), stdin=open(self.work + '/.stdin', 'a+') if not self.qsub else subprocess.DEVNULL, stdout=out, stderr=open(self.work + '/.err.' + t.name, 'ab'), start_new_session=True, preexec_fn=limits, **kw)
        out.close()
        t.fd = os.pidfd_open(t.popen.pid)
        self.sids[t.popen.pid] = t
        t.state = 'running'

    def add(self, t):
        self.threads[t.name] = t
        self.order.append(t.name)

    def reply(self, conn, text):
        try:
            conn.sendall(text.encode(errors='surrogateescape'))
        except OSError:
            pass
        conn.close()

    def kill(self, t):
        if t.root:
            killtree(t.root)
            for h in t.held:
                h[0].close()
            if t.fd is not None:
                os.close(t.fd)
            t.fd = None
            t.state, t.rc, t.held = 'done', -9, []
            return
        try:
            os.killpg(t.popen.pid, signal.SIGKILL)
        except (OSError, AttributeError):
            pass
        if t.popen:
            t.popen.wait()
        if t.fd is not None:
            os.close(t.fd)
            t.fd = None
        if t.conn:
            t.conn.close()
            t.conn = None
        t.state, t.rc = 'done', -9

    def inside(self, p, cwd):
        p = os.path.normpath(os.path.join(cwd, p))
        return p.startswith(self.work + '/') or p == '/dev/null' or p == '/dev/stderr' or p == '/dev/stdout'

    def guard(self, tool, cwd, args):
        """what the scripts may touch: their scratch directory"""
        if not self.inside(cwd, cwd) and cwd != self.work:
            return 'the current directory is %s' % cwd
        if tool in ('rm', 'rmdir', 'mkdir', 'touch', 'tee', 'chmod'):
            bad = [a for a in args if not a.startswith('-') and a and not self.inside(a, cwd) and not (tool == 'chmod' and re.match(r'^[ugoa0-7]*[+=-]?[rwxX0-7]*$', a))]
        elif tool in ('mv', 'cp', 'ln', 'split', 'mktemp'):
            last = [a for a in args if not a.startswith('-')][-1:]
            bad = [a for a in last if a.startswith('/') and not self.inside(a, cwd)]
        else:
            bad = []
        return '%s %s' % (tool, ' '.join(bad)) if bad else None

    def norm(self, a):
        a = a.replace(self.work, '').replace(self.cl.root, '')
        a = re.sub(r'_\d{2,}(?=_|/|$|\b)', '_N', a)
        return re.sub(r'\.[A-Za-z0-9]{6,}(?=/|$|\.)', '.X', a)

    def request(self, conn):
        conn.setblocking(True)
        conn.settimeout(5)
        def get(n):
            b = b''
            while len(b) < n:
                k = conn.recv(n - len(b))
                if not k:
                    raise OSError
                b += k
            return b
        try:
            f = get(struct.unpack('I', get(4))[0]).decode(errors='surrogateescape').split('\0')
        except OSError:
            conn.close()
            return
        job, me, pid, root, reg, cwd, tool, args = f[0], int(f[1]), int(f[2]), int(f[3]), f[4] == '1', f[5], f[6], f[7:]
        t = self.sids.get(int(job))
        if t is None or t.state == 'done':
            conn.close()
            return
        bad = self.guard(tool, cwd, args)
        if bad:
            self.problem = self.problem or ('outside', 'a script touches what is not its own: %s (called %s)' % (bad, tool + ' ' + ' '.join(args)[:200]))
            self.reply(conn, 'E 1 0 -\n')
            return
        if not self.qsub:
            if tool == 'simwait':
                return self.do_wait(conn, pid, me)
            if root:
                t = self.roots.get(root)
                if t is None:
                    t = self.roots[root] = Thread(None, None)
                    t.root, t.state = root, 'starting'
                if t.state == 'done':
                    conn.close()
                    return
                if t.name is None or self.active != t.name:
                    t.held.append((conn, reg, tool, args))
                    if t.state == 'starting':
                        t.state = 'ready'
                    return
                if tool in YIELD:
                    t.calls += 1
                    jf = self.jobfaults.pop((t.name, t.calls), None)
                    if jf:
                        conn.close()
                        self.fired.append(('kill', 'job', t.name, 'yield %d' % t.calls))
                        self.kill(t)
                        self.active = None
                        return
                    self.yields += 1
                    t.held.append((conn, reg, tool, args))
                    t.state = 'ready'
                    self.active = None
                    return
        elif tool == 'simwait':
            return self.reply(conn, 'O 0 0 -\n')
        if tool == 'qsub':
            return self.do_qsub(t, conn, args, cwd)
        if tool == 'qstat':
            return self.do_qstat(t, conn, args)
        if tool in ('qrls', 'qdel'):
            return self.reply(conn, 'O 0 0 -\n')
        ans = self.decide_call(t, reg, tool, args)
        if (self.qsub or t.name == 'M') and tool in YIELD and self.active == t.name:
            t.calls += 1
            jf = self.jobfaults.pop((t.name, t.calls), None)
            if jf:
                conn.close()
                self.fired.append((jf, 'job', t.name, 'yield %d' % t.calls))
                self.kill(t)
                self.active = None
                if jf == 'requeue':
                    t.state, t.rc, t.popen = 'new', None, None
                return
            self.yields += 1
            if self.qsub:
                t.conn, t.answer = conn, ans
                t.state = 'sleeping' if tool == 'sleep' else 'ready'
                self.active = None
                return
        if tool == 'sleep':
            self.now = max(self.now, t.until)
        self.reply(conn, ans)

    def decide_call(self, t, reg, tool, args):
        sig = '%s %s' % (tool, hashlib.md5(' '.join(self.norm(a) for a in args).encode(errors='surrogateescape')).hexdigest()[:8])
        n = self.seen[(t.name, sig)] = self.seen.get((t.name, sig), 0) + 1
        key = '%s %s %d' % (t.name, sig, n)
        real = self.cl.real.get(tool, '-')
        ans = 'R 0 0 %s\n' % real
        self.keys.append((key, tool, reg, ' '.join(args)[:160]))
        if key in self.faults:
            kind, code, lim = self.faults[key]
            self.fired.append((kind, tool, key, ' '.join(args)[:160]))
            ans = '%s %d %d %s\n' % (kind, code, lim, real)
        if tool == 'sleep':
            t.until = self.now + float(args[0]) if args and re.match(r'^[\d.]+$', args[0]) else self.now
            ans = 'O 0 0 -\n'
        elif tool == 'mktemp' and ans[0] == 'R':
            ans = self.mktemp(args)
        elif tool == 'date':
            ans = 'O 0 0 -\n%s\n' % time.strftime('%a %b %e %H:%M:%S UTC %Y', time.gmtime(1e9 + self.now))
        return ans

    def mktemp(self, args):
        d, name = '-d' in args, ([a for a in args if not a.startswith('-')] or [self.work + '/tmp/tmp.XXXXXX'])[0]
        x = len(name) - len(name.rstrip('X'))
        if x < 3:
            return 'O 1 0 -\n'
        for n in range(1000):
            f = '%s%0*d' % (name[:-x], x, n)
            try:
                if d:
                    os.mkdir(f, 0o700)
                else:
                    os.close(os.open(f, os.O_CREAT | os.O_EXCL | os.O_WRONLY, 0o600))
            except FileExistsError:
                continue
            except OSError:
                break
            if os.getuid() == 0:
                os.chown(f, NOBODY, NOBODY)
            return 'O 0 0 -\n%s\n' % f
        return 'O 1 0 -\n'

    def do_wait(self, conn, shell, me):
        """the shell waits for the commands that it started with &: they get their turns now"""
        M = self.threads['M']
        for c in children(shell):
            if c == me:
                continue
            if c in self.roots and self.roots[c].name:
                continue
            t = self.roots.get(c)
            if t is None:
                t = self.roots[c] = Thread(None, None)
                t.root, t.state = c, 'starting'
            try:
                t.fd = os.pidfd_open(c)
            except OSError:
                t.state = 'done'
            self.nb += 1
            t.name = 'B%d' % self.nb
            self.add(t)
        self.reply(conn, 'O 0 0 -\n')
        M.state = 'waiting'
        self.active = None

    def do_qsub(self, t, conn, args, cwd):
        self.nsub += 1
        if self.jobfaults.pop(('qsub', self.nsub), None):
            self.fired.append(('submission_refused', 'qsub', str(self.nsub), ''))
            return self.reply(conn, 'O 1 0 -\n')
        script = args[-1] if args else ''
        name = 'J%d' % self.nsub
        # the batch system takes a copy of the script
        try:
            text = open(os.path.join(cwd, script), errors='surrogateescape').read()
        except OSError:
            return self.reply(conn, 'O 1 0 -\n')
        self.cl.put(self.work + '/.job.' + name, text)
        self.add(Thread(name, ['/usr/bin/bash', self.work + '/.job.' + name]))
        self.reply(conn, 'O 0 0 -\n%d.cluster\n' % self.nsub)

    def do_qstat(self, t, conn, args):
        jid = args[-1] if args else ''
        self.nstat += 1
        if self.jobfaults.pop(('qstat', self.nstat), None):
            self.fired.append(('qstat_failed', 'qstat', str(self.nstat), ''))
            return self.reply(conn, 'O 1 0 -\nqstat: cannot connect to server cluster (errno=111) Connection refused\n')
        j = self.threads.get('J' + jid.split('.')[0])
        if j is None or (j.state == 'done' and self.now >= j.visible):
            return self.reply(conn, 'O 153 0 -\nqstat: Unknown Job Id Error %s\n' % jid)
        return self.reply(conn, 'O 0 0 -\nJob ID    Name   User  Time Use S Queue\n%s job nobody 0 %s batch\n' % (jid, 'C' if j.state == 'done' else 'Q' if j.state == 'new' else 'R'))

    def go(self):
        sock = self.work + '/.sock'
        srv = socket.socket(socket.AF_UNIX)
        srv.bind(sock)
        os.chmod(sock, 0o777)
        srv.listen(64)
        self.active = None
        main = Thread('M', self.argv)
        self.add(main)
        quiet = None
        self.stuck = None
        try:
            while main.state != 'done':
                settle = False
                if self.active is None:
                    if main.state == 'waiting' and all(t.state == 'done' for t in self.threads.values() if t is not main):
                        main.state, self.active = 'running', 'M'
                    elif any(t.state == 'starting' for t in self.threads.values()):
                        settle = True
                    elif not self.next():
                        break
                fds = {t.fd: t for t in self.threads.values() if t.fd is not None}
                r, _, _ = select.select([srv] + list(fds), [], [], 5)
                if r:
                    quiet = None
                elif quiet is None:
                    quiet = (time.time(), used(self.sids))
                elif used(self.sids) - quiet[1] > 10:
                    self.stuck = 'a command computes without end'
                    break
                elif time.time() - quiet[0] > self.wall:
                    raise RuntimeError('nothing happens')
                if srv in r:
                    conn, _ = srv.accept()
                    self.request(conn)
                    continue
                for fd in r:
                    t = fds[fd]
                    if t.fd is None:
                        continue
                    os.close(t.fd)
                    t.fd = None
                    t.state = 'done'
                    if t.popen:
                        t.rc = t.popen.wait()
                        # the batch system may show a finished job for a while
                        t.visible = self.now + (0, 0, 3, 30)[self.decide(4, 'lag')] if t.name != 'M' else 0
                        try:
                            os.killpg(t.popen.pid, signal.SIGKILL)      # stray children
                        except OSError:
                            pass
                    if self.active == t.name:
                        self.active = None
        finally:
            srv.close()
            os.unlink(sock)
            for t in list(self.roots.values()) + list(self.threads.values()):
                if t.state not in ('done', 'new'):
                    self.kill(t)
        return main.rc

    def next(self):
        """whose turn it is"""
        ready = [n for n in self.order if self.threads[n].state in ('new', 'ready')]
        asleep = [n for n in self.order if self.threads[n].state == 'sleeping']
        # a process may be slow: the others' sleeps can end before it goes on
        if ready and asleep:
            if self.slow is None:
                self.slow = (2, 8, 30)[self.decide(3, 'slow')]
            c = asleep if self.decide(self.slow, 'wake') == 1 else ready
        else:
            c = ready + asleep
        if not c:
            self.stuck = 'nothing can run'
            return False
        if self.yields > 7000:
            self.stuck = 'no end after %d steps and %d simulated seconds' % (self.yields, self.now)
            return False
        n = c[self.decide(len(c), 'who')] if len(c) > 1 else c[0]
        if self.yields > 3500 and ready:      # fair from now on
            n = ready[self.yields % len(ready)]
        t = self.threads[n]
        self.trace.append(n)
        if t.state == 'sleeping':
            self.now = max(self.now, t.until)
        else:
            self.now += 1
        self.active = n
        if t.state == 'new':
            self.start(t)
        elif t.root:
            t.state, held, t.held = 'running', t.held, []
            for conn, reg, tool, args in held:
                self.reply(conn, self.decide_call(t, reg, tool, args))
        else:
            c, t.conn, t.state = t.conn, None, 'running'
            self.reply(c, t.answer)
        return True
