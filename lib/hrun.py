"""Executable-contract phase: builds the harness of a property against /repo's
current sources (three configurations) and runs every section of it."""
import os, subprocess, time, glob, hashlib, mmap, signal, threading, re
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('QDV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONFIGS = {'off': [], 'sse': ['-msse4.1', '-DQUADIRON_USE_SIMD'], 'avx': ['-mavx2', '-DQUADIRON_USE_SIMD']}
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=pointer-overflow,vptr,null', '-fno-sanitize-recover=all']
BASE = ['-include', 'utility', '-g1', '-std=c++14', '-O1', '-UNDEBUG', '-w']
CXX = 'clang++-18'


def make_build_info(work):
    """build_info.h is generated by cmake in a normal build."""
    d = os.path.join(work, 'gen')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(REPO, 'src/build_info.in')) as f:
        s = f.read()
    s = re.sub(r'#cmakedefine (\w+) "@\w+@"', r'#define \1 "verif"', s)
    s = re.sub(r'#cmakedefine (\w+).*', r'#define \1', s)
    with open(os.path.join(d, 'build_info.h'), 'w') as f:
        f.write(s)
    return d


def cpu_ms(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            a = f.read().rsplit(')', 1)[1].split()
        return (int(a[11]) + int(a[12]) + int(a[13]) + int(a[14])) * 10
    except Exception:
        return 0


class Harness:
    def __init__(self, name, work, tier, seed, budget):
        self.name, self.work, self.tier, self.seed = name, work, tier, seed
        self.deadline = time.time() + budget
        self.results, self.errors, self.failures = [], [], []
        self.compile_s = 0

    def build(self, pool):
        t0 = time.time()
        gen = make_build_info(self.work)
        jobs = {}
        srcs = sorted(glob.glob(os.path.join(REPO, 'src/*.cpp')))
        hs = os.path.join(VERIF, 'harness', self.name + '.cpp')

        def cc(args):
            src, out, fl = args
            r = subprocess.run([CXX] + BASE + SAN + fl + ['-I' + os.path.join(REPO, 'src'), '-I' + gen, '-c', src, '-o', out],
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, errors='replace')
            return r.returncode, src, '\n'.join(l for l in r.stderr.splitlines() if 'error' in l)[:600]
        todo = []
        for c, fl in CONFIGS.items():
            todo.append((hs, os.path.join(self.work, 'h_%s.o' % c), fl))
        for c, fl in CONFIGS.items():
            for s in srcs:
                todo.append((s, os.path.join(self.work, '%s_%s.o' % (os.path.basename(s)[:-4], c)), fl))
        for rc, src, err in pool.map(cc, todo):
            if rc:
                self.errors.append('compiling %s: %s' % (src, err))
        if self.errors:
            return False

        def ld(c):
            objs = [t[1] for t in todo if t[1].endswith('_%s.o' % c)]
            out = os.path.join(self.work, 'h_' + c)
            r = subprocess.run([CXX, '-fsanitize=address,undefined'] + objs + ['-o', out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, errors='replace')
            return r.returncode, c, r.stderr[-600:]
        for rc, c, err in pool.map(ld, list(CONFIGS)):
            if rc:
                self.errors.append('linking %s: %s' % (c, err))
        self.compile_s = time.time() - t0
        return not self.errors

    def one(self, cs):
        c, sec = cs
        exe = os.path.join(self.work, 'h_' + c)
        st = os.path.join(self.work, 'st_%s_%s' % (c, sec))
        out = st + '.out'
        scratch = os.path.join(self.work, 'cwd_%s_%s' % (c, sec))
        os.makedirs(scratch, exist_ok=True)
        cmd = [exe, '--only', sec, '--seed', str(self.seed), '--scale', '4' if self.tier == 'thorough' else '1', '--status', st]
        env = {'PATH': '/usr/bin:/bin', 'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=0:symbolize=0', 'UBSAN_OPTIONS': 'print_stacktrace=0', 'TMPDIR': scratch}
        t0 = time.time()
        with open(out, 'wb') as f:
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, cwd=scratch, env=env, start_new_session=True)
        last_n, last_cpu, state = -1, 0, None
        while True:
            try:
                p.wait(0.25)
                break
            except subprocess.TimeoutExpired:
                pass
            n = self.count(st)
            cpu = cpu_ms(p.pid)
            if n != last_n:
                last_n, last_cpu, last_t = n, cpu, time.time()
            hang = cpu - last_cpu > (240000 if self.tier == 'thorough' else 120000) or (time.time() - last_t > 400 and cpu - last_cpu > 60000)
            big = os.path.getsize(out) > 50 << 20
            if hang or big or time.time() > self.deadline:
                state = 'hang' if hang else 'flood' if big else 'deadline'
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        with open(out, errors='replace') as f:
            txt = f.read(1 << 20)
        case = self.case(st)
        n = self.count(st)
        r = dict(config=c, section=sec, cases=n, seconds=round(time.time() - t0, 2), last_case=case, cmd=' '.join(cmd[1:7]), rc=p.returncode, state=state or 'done')
        if state == 'hang':
            r['fail'] = 'does not terminate (no progress for two minutes of processor time)'
        elif state == 'deadline':
            r['state'] = 'deadline'
        elif state == 'flood':
            r['fail'] = 'endless output'
        elif p.returncode != 0:
            m = re.search(r'^FAIL: (.*)$', txt, re.M)
            m2 = re.search(r'^CASE: (.*)$', txt, re.M)
            if m:
                r['fail'] = m.group(1)
                if m2:
                    r['last_case'] = m2.group(1)
            else:
                e = re.search(r'(runtime error: .*|ERROR: AddressSanitizer.*|SUMMARY: .*|.*Assertion .*|terminate called.*)', txt)
                r['fail'] = e.group(1) if e else 'ends with status %d' % p.returncode
            r['output'] = txt[-6000:]
        return r

    @staticmethod
    def count(st):
        try:
            with open(st, 'rb') as f:
                f.seek(4096)
                return int.from_bytes(f.read(8), 'little')
        except Exception:
            return 0

    @staticmethod
    def case(st):
        try:
            with open(st, 'rb') as f:
                return f.read(4000).split(b'\0')[0].decode(errors='replace')
        except Exception:
            return ''

    def run(self, pool):
        todo = []
        for c in CONFIGS:
            r = subprocess.run([os.path.join(self.work, 'h_' + c), '--list'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            todo += [(c, s) for s in r.stdout.split()]
        if not todo:
            self.errors.append('the harness has no section')
            return
        # the same section of the three builds are spread over time
        todo.sort(key=lambda t: t[1])
        for r in pool.map(self.one, todo):
            self.results.append(r)
            if 'fail' in r:
                self.failures.append(r)
