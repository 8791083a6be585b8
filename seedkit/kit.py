"""Runs the real programs of thot built in /repo/_build against scratch copies of a toy model."""
import atexit, os, shutil, signal, socket, struct, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
LIBS = '/repo/_build/src/.libs'
VERIFY, TRANS, INFO, TRAIN, ECM, CAT, ADD, RESET, PRINT, BYE, END = range(1, 12)

# A gate holds the first thread that enters the function once the gate is armed, until go or 10 seconds.
GATE_HEAD = r"""#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <unistd.h>
#include <fcntl.h>
static void hold(int i) {
  char p[400]; int fd;
  snprintf(p, sizeof p, "@D@/gate%d.arm", i); if (access(p, F_OK)) return;
  snprintf(p, sizeof p, "@D@/gate%d.in", i); fd = open(p, O_CREAT | O_EXCL | O_WRONLY, 0600); if (fd < 0) return; close(fd);
  snprintf(p, sizeof p, "@D@/gate%d.go", i);
  for (int k = 0; k < 1000 && access(p, F_OK); ++k) usleep(10000);
}
"""
GATE = r"""
static void* real_%(i)d;
void pre_%(i)d(void) { if (!real_%(i)d) real_%(i)d = dlsym(RTLD_NEXT, "%(sym)s"); hold(%(i)d); }
void* tgt_%(i)d(void) { return real_%(i)d; }
__asm__(".text\n.globl %(sym)s\n.type %(sym)s,@function\n%(sym)s:\n"
"push %%rbp\nmov %%rsp,%%rbp\npush %%rdi\npush %%rsi\npush %%rdx\npush %%rcx\npush %%r8\npush %%r9\npush %%rax\npush %%rbx\n"
"sub $128,%%rsp\nmovups %%xmm0,(%%rsp)\nmovups %%xmm1,16(%%rsp)\nmovups %%xmm2,32(%%rsp)\nmovups %%xmm3,48(%%rsp)\n"
"mov %%rsp,%%rbx\nand $-16,%%rsp\ncall pre_%(i)d@PLT\ncall tgt_%(i)d@PLT\nmov %%rax,%%r11\nmov %%rbx,%%rsp\n"
"movups (%%rsp),%%xmm0\nmovups 16(%%rsp),%%xmm1\nmovups 32(%%rsp),%%xmm2\nmovups 48(%%rsp),%%xmm3\nadd $128,%%rsp\n"
"pop %%rbx\npop %%rax\npop %%r9\npop %%r8\npop %%rcx\npop %%rdx\npop %%rsi\npop %%rdi\npop %%rbp\njmp *%%r11\n");
"""

class Scratch:
    def __init__(self, shim=True, gates=()):
        self.d = tempfile.mkdtemp(prefix='thotdemo')
        self.procs = []
        atexit.register(self.close)
        self.env = dict(os.environ, LD_LIBRARY_PATH=LIBS, LC_ALL='C')
        m = os.path.join(self.d, 'master.ini')
        for l in [open('/repo/examples/ini_files/standard.ini').read()]:
            open(m, 'w').write(l.replace('$(libdir)', LIBS))
        if shim:
            so = os.path.join(self.d, 'shim.so')
            g = os.path.join(self.d, 'gates.c')
            open(g, 'w').write(GATE_HEAD.replace('@D@', self.d) + ''.join(GATE % dict(i=i, sym=x) for i, x in enumerate(gates)))
            subprocess.check_call(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', so, os.path.join(HERE, 'shim.c'), g, '-ldl'])
            self.env.update(SHIM_MASTER=m, LD_PRELOAD=so)
    def p(self, *a): return os.path.join(self.d, *a)
    def gate(self, i, timeout=8):
        """Waits until some thread stands at the entry of gate i; False if none comes."""
        for _ in range(int(timeout * 50)):
            if os.path.exists(self.p('gate%d.in' % i)): return True
            time.sleep(0.02)
        return False
    def arm(self, i): open(self.p('gate%d.arm' % i), 'w').close()
    def go(self, i): open(self.p('gate%d.go' % i), 'w').close()
    def close(self):
        for q in self.procs:
            if q.poll() is None: q.kill()
            q.wait()
        shutil.rmtree(self.d, ignore_errors=True)
    def compile(self, text, *libs):
        src, exe = self.p('prog.cc'), self.p('prog')
        open(src, 'w').write(text)
        inc = ['-I/repo/src/' + x for x in os.listdir('/repo/src') if os.path.isdir('/repo/src/' + x)]
        r = subprocess.run(['g++', '-O0', '-w', '-pthread', '-DHAVE_CONFIG_H', '-I/repo/_build', '-I/repo/_build/src', '-I/repo/src'] + inc + ['-o', exe, src, '-L' + LIBS, '-lthot'] + list(libs), stderr=subprocess.PIPE, text=True)
        if r.returncode: raise Exception(r.stderr[-3000:])
        return exe
    def run(self, *args, env={}, timeout=60, inp=b'', **kw):
        r = subprocess.run(args, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=dict(self.env, **env), cwd=self.d, **kw)
        return r.returncode, r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace')
    def tool(self, *args, inp=b'', timeout=60, env={}, **kw):
        r = subprocess.run([os.path.join(LIBS, args[0])] + list(args[1:]), input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=dict(self.env, **env), cwd=self.d, **kw)
        return r.returncode, r.stdout, r.stderr
    def models(self, name='toy', phr='incr_phrase_model_factory', lm='incr_jel_mer_ngram_lm_factory'):
        t = self.p(name)
        shutil.copytree(os.path.join(HERE, 'toy'), t)
        open(os.path.join(t, 'tm/tm_desc'), 'w').write('thot tm descriptor # x\n%s/%s.so main/src_trg main # x\n' % (LIBS, phr))
        open(os.path.join(t, 'lm/lm_desc'), 'w').write('thot lm descriptor # x\n%s/%s.so main/trg.lm main # x\n' % (LIBS, lm))
        return t
    def cfg(self, toy, extra='-W 10\n-S 10\n-A 7\n-nomon 0\n-h 6\n-sp 0\n-olp 0 0 1 5 1 0\n'):
        c = os.path.join(toy, 'server.cfg')
        open(c, 'w').write('-tm %s/tm/tm_desc\n-lm %s/lm/lm_desc\n-cf _none_\n' % (toy, toy) + extra)
        return c

class Server:
    def __init__(self, s, cfg, args=(), env={}, port=None):
        k = socket.socket(); k.bind(('127.0.0.1', 0)); self.port = port or k.getsockname()[1]; k.close()
        self.err = s.p('server%d.log' % self.port)
        self.pr = subprocess.Popen([os.path.join(LIBS, 'thot_server'), '-c', cfg, '-p', str(self.port)] + list(args),
                                   env=dict(s.env, **env), stderr=open(self.err, 'wb'), stdout=subprocess.DEVNULL, stdin=subprocess.DEVNULL, cwd=s.d)
        s.procs.append(self.pr)
        for _ in range(300):
            if b'Listening' in open(self.err, 'rb').read(): return
            if self.pr.poll() is not None: break
            time.sleep(0.1)
        raise Exception('server did not start: ' + open(self.err, errors='replace').read()[-2000:])
    def log(self): return open(self.err, errors='replace').read()
    def conn(self, timeout=20):
        c = socket.create_connection(('127.0.0.1', self.port), timeout=timeout)
        c.settimeout(timeout)
        return c
    def req(self, code, uid=1, *strs, timeout=20):
        c = self.conn(timeout)
        c.sendall(msg(code, uid, *strs))
        return reply(code, c)
    def wait(self, timeout=20):
        try: return self.pr.wait(timeout)
        except subprocess.TimeoutExpired: return None

def msg(code, uid, *strs):
    m = struct.pack('>ii', code, uid)
    for x in strs:
        x = x if isinstance(x, bytes) else x.encode()
        m += struct.pack('>i', len(x)) + x
    return m
def get(c, n):
    b = b''
    while len(b) < n:
        x = c.recv(n - len(b))
        if not x: raise EOFError('connection closed after %d of %d bytes' % (len(b), n))
        b += x
    return b
def reply(code, c):
    def i(): return struct.unpack('>i', get(c, 4))[0]
    def st(): return get(c, i()).decode(errors='replace')
    if code in (TRAIN, ECM, RESET, PRINT, END): r = i()
    elif code in (TRANS, INFO): r = (st(), st())
    else: r = st()
    rest = c.recv(100)
    c.close()
    if rest: raise Exception('extra bytes after the reply: %r' % rest)
    return r
def check(ok, what):
    if not ok:
        print('FAILED: ' + what)
        sys.exit(1)
