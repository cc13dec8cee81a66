"""A simulated world: one scratch directory, real processes run under simtrace."""
import os, subprocess, hashlib, shutil, json, stat, random
from . import gen

OUT_OPS_W = ('write', 'writev', 'pwrite')


class Ev:
    __slots__ = ('seq', 'proc', 'idx', 'task', 'op', 'cls', 'path', 'cls2', 'path2', 'flags', 'size', 'ret', 'applied', 'allocs')

    def __init__(s, f):
        s.seq = int(f[1]); s.proc = int(f[2]); s.idx = int(f[3]); s.task = int(f[4]); s.op = f[5]; s.cls = f[6]; s.path = unesc(f[7]); s.cls2 = f[8]; s.path2 = unesc(f[9])
        s.flags = f[10]; s.size = int(f[11]); s.ret = int(f[12]); s.applied = f[13]; s.allocs = int(f[14])

    @property
    def wopen(s): return s.op in ('open', 'openat', 'openat2', 'creat') and ('W' in s.flags or 'T' in s.flags or 'C' in s.flags)

    @property
    def mut(s):
        return s.wopen or s.op in ('write', 'writev', 'pwrite', 'mkdir', 'rmdir', 'unlink', 'rename', 'link', 'symlink', 'truncate', 'ftruncate', 'fallocate', 'chmod', 'fchmod', 'chown', 'fchown', 'utime', 'mknod', 'sendfile', 'copyrange') or (s.op == 'mmap' and 'W' in s.flags)

    def brief(s, root): return '%d:%d %s %s %s%s size=%d ret=%d %s' % (s.proc, s.idx, s.op, s.cls, norm(s.path, root), (' -> ' + norm(s.path2, root)) if s.path2 and s.op != 'exec' else '', s.size, s.ret, s.applied)


def norm(t, root):
    """make text independent of where the scratch directory is"""
    t = t.replace(root, '@')
    d = os.path.dirname(root)
    return t.replace(d, '@@') if len(d) > 6 else t


def esc(s): return s.replace('\\', '\\\\').replace('\t', '\\t').replace('\n', '\\n')


def unesc(s):
    if '\\' not in s: return s
    r = []; i = 0
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s): i += 1; r.append({'t': '\t', 'n': '\n'}.get(s[i], s[i]))
        else: r.append(s[i])
        i += 1
    return ''.join(r)


class Res:
    """result of one simulation"""
    def ok(s, p=0): return s.exits.get(p) == ('exit', 0, False) and not s.abort

    def failed(s, p=0): return not s.ok(p)

    def sim_killed(s, p=0): return p in s.exits and s.exits[p][2]

    def describe(s): return 'abort=%s exits=%s' % (s.abort, s.exits)


class SimError(Exception):
    pass


def read_tree(d, content=True):
    """{relative path: ('f', bytes, ino, mtime_ns) | ('d',) | ('l', target)}"""
    out = {}
    if not os.path.isdir(d): return out
    st = [('', d)]
    while st:
        rel, p = st.pop()
        for e in os.scandir(p):
            r = rel + e.name
            if e.is_symlink(): out[r] = ('l', os.readlink(e.path))
            elif e.is_dir(): out[r] = ('d',); st.append((r + '/', e.path))
            else:
                s = e.stat()
                if content:
                    with open(e.path, 'rb') as f: b = f.read()
                else: b = None
                out[r] = ('f', b, s.st_ino, s.st_mtime_ns)
    return out


def files_of(tree): return {k: v[1] for k, v in tree.items() if v[0] == 'f'}


def clear_dir(d):
    for e in os.scandir(d):
        if e.is_dir(follow_symlinks=False): shutil.rmtree(e.path)
        else: os.unlink(e.path)


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f: f.write(data if isinstance(data, bytes) else data.encode())


class World:
    def __init__(self, root, simtrace, preload, binder):
        self.root = root; self.simtrace = simtrace; self.preload = preload; self.binder = binder
        self.inp = root + '/in'; self.cfgd = root + '/cfg'; self.out = root + '/out'; self.cfg = self.cfgd + '/c.cfg'
        for d in (self.inp, self.cfgd, self.out, root + '/home', root + '/sim'): os.makedirs(d, exist_ok=True)
        self.cache = {}
        self.stats = {'runs': 0, 'golden_runs': 0, 'faults': {}, 'events': 0, 'sim_sleep_ns': 0, 'preempts': 0, 'decisions': 0}
        self.sigs = set()
        self.max_cache = 60
        self.tseed = None; self.dirseed = 0
        self.lasthash = hashlib.sha256()

    # ---- inputs
    def install(self, proj):
        key = json.dumps(proj, sort_keys=True)
        if getattr(self, '_inst', None) == key: return
        clear_dir(self.inp); clear_dir(self.cfgd)
        for p, t in gen.render(proj).items(): put(self.inp + '/' + p, t)
        c = gen.render_cfg(proj)
        if c is not None: put(self.cfg, c)
        t = 1500000000
        for b, ds, fs in os.walk(self.inp):
            for f in fs: os.utime(os.path.join(b, f), (t, t))
        self._inst = key

    def replant(self, proj, seed):
        """the same inputs as other files: order of creation (inodes) and time stamps differ"""
        import random
        rng = random.Random(seed)
        clear_dir(self.inp); clear_dir(self.cfgd)
        fs = sorted(gen.render(proj).items()); rng.shuffle(fs)
        for p, t in fs: put(self.inp + '/' + p, t)
        c = gen.render_cfg(proj)
        if c is not None: put(self.cfg, c)
        for b, ds, ff in os.walk(self.root + '/in'):
            for f in sorted(ff): t = rng.choice([0, 1, 10 ** 9, 1500000000, 4 * 10 ** 9]) + rng.randrange(10 ** 6); os.utime(os.path.join(b, f), (t, t))
        self._inst = None

    def inputs_snapshot(self): return {**{'in/' + k: v[1] for k, v in read_tree(self.inp).items() if v[0] == 'f'}, **{'cfg/' + k: v[1] for k, v in read_tree(self.cfgd).items() if v[0] == 'f'}}

    def argv(self, proj, opts, prefix=None):
        a = [self.binder]
        if opts['layout'] == 'flat': a.append('--flat')
        if opts['layout'] == 'single': a.append('--single-file')
        a += opts['flags']
        a += ['--root-module', opts['root'], '--prefix', prefix if prefix is not None else self.out]
        if opts['max'] is not None: a.append('--max-file-size=%d' % opts['max'])
        if proj.get('cfg'): a += ['--config', self.cfg]
        for b in proj['binds']: a += ['--bind', b]
        i = self.inp if opts.get('abs') else 'in'
        a += [i + '/all.hpp', '--', '-x', 'c++', '-std=' + proj['std'], '-I' + i]
        return a

    # ---- one simulation
    def sim(self, procs, faults=(), disk=None, sched=None, preempt=None, yields=(), sync=None, budget=6000, wall=300, cpu=90, classes=None, tag='run', rand=7, tsched=None):
        """procs: [{'argv','env'?,'cwd'?,'umask'?}], faults: [{'proc','at','action','p'} | {'proc','from','cls','ops','action','p'}]"""
        L = []
        for c, p in (classes or self.default_classes()): L.append('class\t%s\t%s' % (c, esc(p)))
        L.append('class\t-\t%s' % (self.root + '/sim'))
        outs = []
        for i, p in enumerate(procs):
            o = '%s/sim/stdout.%d' % (self.root, i); outs.append(o)
            L += ['proc', 'cwd\t' + esc(p.get('cwd', self.root)), 'out\t' + esc(o)]
            if 'umask' in p: L.append('umask\t%d' % p['umask'])
            L += ['arg\t' + esc(x) for x in p['argv']]
            env = {'PATH': '/usr/bin:/bin', 'HOME': self.root + '/home', 'LC_ALL': 'C', 'TMPDIR': self.root + '/home'}
            if p.get('preload', True):
                env.update({'LD_PRELOAD': self.preload, 'VSIM_SEED': '0', 'VSIM_TIME': '1600000000000000000', 'VSIM_PID': '4242'})
            env.update(p.get('env', {}))
            L += ['env\t' + esc('%s=%s' % kv) for kv in env.items() if kv[1] is not None]
        for f in faults:
            if 'at' in f: L.append('fault\t%d\t%d\t%s\t%d' % (f.get('proc', 0), f['at'], f['action'], f.get('p', 0)) + ('\t' + f['op'] if f.get('op') else ''))
            else: L.append('pfault\t%d\t%d\t%s\t%s\t%s\t%d' % (f.get('proc', 0), f['from'], f['cls'], f['ops'], f['action'], f.get('p', 0)))
        for c, b in (disk or {}).items(): L.append('disk\t%s\t%d' % (c, b))
        for y in yields: L.append('yield\t' + y)
        if sync: L.append('sync\tOUT')
        if sched is not None: L.append('sched\t%d\t%d' % (sched[0], sched[1]))
        # threads of a process, should it have any, are scheduled by a function of the case
        if tsched is None and self.tseed is not None: tsched = (self.tseed, [20, 60, 100, 0][self.tseed % 4], 1 if self.tseed % 4 == 3 else 0) if tag == 'run' else (0, 0, 0)
        if self.dirseed and tag == 'run': L.append('dirorder\t%d' % self.dirseed)
        if tsched: L.append('tsched\t%d\t%d\t%d' % tsched)
        for d, c in (preempt or []): L.append('preempt\t%d\t%d' % (d, c))
        L += ['budget\t%d' % budget, 'wall\t%d' % wall, 'cpu\t%d' % cpu, 'rand\t%d' % rand]
        plan, log = self.root + '/sim/plan', self.root + '/sim/log'
        with open(plan, 'w', encoding='utf-8', errors='surrogateescape') as f: f.write('\n'.join(L) + '\n')
        if sync:
            pr = subprocess.Popen([self.simtrace, plan, log], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, errors='surrogateescape')
            for line in pr.stdout:
                w = line.rstrip('\n').split('\t')
                if w[0] == 'STEP':
                    sync(int(w[1]), int(w[2]), w[3], unesc(w[4]))
                    try: pr.stdin.write('g\n'); pr.stdin.flush()
                    except BrokenPipeError: break
            pr.stdin.close(); pr.stdout.close(); rc = pr.wait()
        else:
            rc = subprocess.call([self.simtrace, plan, log])
        if rc not in (0, 4): raise SimError('simtrace rc %d' % rc)
        r = Res(); r.events = []; r.exits = {}; r.abort = None; r.preempts = []; r.fhits = []; r.sleep = 0; r.rc = rc; r.decisions = 0
        with open(log, encoding='utf-8', errors='surrogateescape') as f:
            for line in f:
                w = line.rstrip('\n').split('\t')
                if w[0] == 'E': r.events.append(Ev(w))
                elif w[0] == 'D': r.exits[int(w[1])] = (w[2], int(w[3]), w[5] == '1')
                elif w[0] == 'X': r.abort = r.abort or w[1]
                elif w[0] == 'P': r.preempts.append((int(w[1]), int(w[2])))
                elif w[0] == 'F': r.fhits.append(int(w[5]))
                elif w[0] == 'Z': r.sleep = int(w[3]); r.decisions = int(w[2]) + int(w[4])
        r.text = []
        for o in outs:
            try: r.text.append(open(o, 'rb').read().decode('utf-8', 'replace'))
            except OSError: r.text.append('')
        h = hashlib.sha256()
        for e in r.events: h.update(e.brief(self.root).encode('utf-8', 'surrogateescape'))
        h.update(repr((sorted(r.exits.items()), r.abort)).encode())
        for t in r.text: h.update(norm(t, self.root).encode('utf-8', 'surrogateescape'))
        r.hash = h.hexdigest()
        self.lasthash.update(r.hash.encode())
        s = self.stats
        s['runs'] += 1; s['events'] += len(r.events); s['sim_sleep_ns'] += r.sleep; s['preempts'] += len(r.preempts); s['decisions'] += r.decisions
        for e in r.events:
            if e.applied:
                k = fault_kind(e); s['faults'][k] = s['faults'].get(k, 0) + 1
        return r

    def default_classes(self): return [('OUT', self.out), ('IN', self.inp), ('CFG', self.cfgd)]

    # ---- undisturbed run into an empty prefix
    def golden(self, proj, opts):
        key = hashlib.sha256(json.dumps([proj, opts], sort_keys=True).encode()).hexdigest()
        if key in self.cache: return self.cache[key]
        self.install(proj)
        aside = None
        if os.path.lexists(self.out):
            aside = self.root + '/aside'
            os.rename(self.out, aside)
        os.mkdir(self.out)
        hsave = self.lasthash.copy()
        r = self.sim([{'argv': self.argv(proj, opts)}], tag='golden')
        self.lasthash = hsave
        self.stats['golden_runs'] += 1
        r.tree = read_tree(self.out); r.files = files_of(r.tree)
        shutil.rmtree(self.out)
        if aside: os.rename(aside, self.out)
        if len(self.cache) >= self.max_cache: self.cache.pop(next(iter(self.cache)))
        self.cache[key] = r
        return r

    # ---- simulated time stamps: every file gets a time the simulator chose
    def stamp(self, rng, base=1600000000, spread=100000, d=None):
        d = d or self.out
        for b, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(b, f)
                if not os.path.islink(p):
                    t = base + rng.randrange(spread); os.utime(p, ns=(t * 10 ** 9 + 12345, t * 10 ** 9 + 12345))


def fault_kind(e):
    a = e.applied.split(':')
    if a[0] == 'errno': return '%s:%s:%s' % (e.cls, 'open' if e.op.startswith('open') else e.op, os.strerror(int(a[1])).replace(' ', '_'))
    return '%s:%s:%s' % (e.cls, 'open' if e.op.startswith('open') else e.op, a[0] if a[0] != 'disk' else 'disk_' + a[1])


# ------------------------------------------------------------- disturbances of the prefix between runs
def powerloss(rng, root, before, written, p=0.7):
    """unsynced data of files written during the interrupted run is lost in various ways"""
    hit = []
    for rel in sorted(written):
        path = root + '/' + rel
        if not os.path.isfile(path) or os.path.islink(path): continue
        if rng.random() > p: continue
        cur = open(path, 'rb').read()
        old = before.get(rel)
        f = rng.choice(['old', 'empty', 'prefix', 'zeros', 'garbage', 'vanish', 'tailzero', 'block'])
        if f == 'old':
            if old and old[0] == 'f': data = old[1]
            else: f = 'vanish'; data = None
        elif f == 'empty': data = b''
        elif f == 'prefix': data = cur[:rng.randrange(len(cur) + 1)]
        elif f == 'zeros': data = b'\0' * len(cur)
        elif f == 'garbage': data = bytes(rng.randrange(256) for _ in range(len(cur)))
        elif f == 'tailzero': k = rng.randrange(len(cur) + 1); data = cur[:k] + b'\0' * (len(cur) - k)
        elif f == 'block':   # one block lost inside
            k = rng.randrange(max(1, len(cur))); n = min(rng.choice([1, 16, 512, 4096]), len(cur) - k); data = cur[:k] + b'\0' * n + cur[k + n:]
        else: data = None
        if f == 'vanish': os.unlink(path)
        else:
            with open(path, 'wb') as h: h.write(data)
        hit.append((rel, f))
    if rng.random() < .15:   # whole new directories may be lost
        ds = sorted(k for k, v in read_tree(root, False).items() if v[0] == 'd' and k not in before)
        if ds:
            d = rng.choice(ds); shutil.rmtree(root + '/' + d, ignore_errors=True); hit.append((d, 'dirlost'))
    return hit


FOREIGN = ['notes.txt', 'a/old_x.cpp', 'CMakeLists.txt', 'a/b/keep.dat', 'm_99.cpp', 'core/readme', 'zzz.sources', 'old.modules', 'pkg_77.cpp', 'm.cpp.bak', 'x.cpp~', '.hidden', 'tmp/empty.cpp', 'm.cpp.tmp', 'a/x.cpp.new', 'm.o']


def edit(rng, p, a):
    """one edit of the content of a file"""
    d = bytearray(open(p, 'rb').read())
    if a == 'truncate': d = d[:rng.randrange(len(d) + 1)]
    elif a == 'append': d += bytes(rng.randrange(32, 127) for _ in range(rng.randrange(1, 60)))
    elif a == 'longer': d += b'// stale tail\n' * rng.randrange(1, 2000)
    elif a == 'empty': d = bytearray()
    elif a == 'garbage': d = bytearray(rng.randrange(256) for _ in range(rng.choice([len(d), len(d), rng.randrange(1, 9000)])))
    elif a == 'nl': d = bytearray(bytes(d).rstrip(b'\n')) if rng.random() < .5 else d + b'\n'
    elif a == 'crlf': d = bytearray(bytes(d).replace(b'\n', b'\r\n'))
    elif a == 'case': d = bytearray(bytes(d).swapcase())
    elif a == 'front': d[0:0] = rng.choice([b'\xef\xbb\xbf', b'// hand edited\n', b'\n', b' '])
    elif a == 'nul':
        if d and rng.random() < .5: d[rng.randrange(len(d))] = 0
        else: d += b'\0' * rng.randrange(1, 9)
    elif a == 'space':
        i = bytes(d).find(b' ', rng.randrange(max(1, len(d))))
        if i >= 0: d[i:i + 1] = rng.choice([b'', b'  ', b'\t'])
    elif a == 'swapbytes' and len(d) > 2:
        i = rng.randrange(len(d) - 1); k = rng.choice([1, 1, 2, 4, 8, 16, rng.randrange(1, len(d))]); j = min(len(d) - 1, i + k); d[i], d[j] = d[j], d[i]
    elif a == 'digit':
        ds = [i for i, c in enumerate(d) if 48 <= c <= 57]
        if ds: i = rng.choice(ds); d[i] = 48 + (d[i] - 48 + rng.randrange(1, 10)) % 10
    elif a in ('swaplines', 'dropline', 'dupline', 'comment'):
        L = bytes(d).split(b'\n')
        i, j = rng.randrange(len(L)), rng.randrange(len(L))
        if a == 'swaplines': L[i], L[j] = L[j], L[i]
        elif a == 'dropline': L.pop(i)
        elif a == 'dupline': L.insert(i, L[i])
        else:
            cs = [k for k, l in enumerate(L) if b'//' in l]
            if cs: k = rng.choice(cs); L[k] += rng.choice([b' ', b' edited', b'.'])
        d = bytearray(b'\n'.join(L))
    elif d and a.startswith('flip'):
        i = {'flip': rng.randrange(len(d)), 'flipend': len(d) - 1, 'flipstart': 0}[a]; d[i] ^= 1 << rng.randrange(7)
    open(p, 'wb').write(d)


def tamper(rng, root, own, n):
    """edits of the output directory by somebody else; own = files of the runs so far"""
    done = []
    for _ in range(n):
        t = read_tree(root, False)
        fs = sorted(k for k, v in t.items() if v[0] == 'f')
        mine = [f for f in fs if f in own]
        a = rng.choice(['delete', 'truncate', 'append', 'flip', 'garbage', 'empty', 'swap', 'foreign', 'foreign', 'touch', 'longer', 'flip', 'flipend', 'flipstart', 'deldir', 'emptydir', 'nl', 'crlf', 'case', 'space', 'swapbytes', 'swapbytes', 'swaplines', 'comment', 'digit', 'dropline', 'dupline', 'nul', 'front', 'flip', 'digit'])
        if a == 'foreign':
            f = rng.choice(FOREIGN); p = root + '/' + f
            try: put(p, bytes(rng.randrange(32, 127) for _ in range(rng.randrange(200))))
            except OSError: continue
            done.append((a, f)); continue
        if a == 'emptydir':
            try: os.makedirs(root + '/' + rng.choice(['a', 'a/b', 'core', 'emptyd', 'x']), exist_ok=True)
            except OSError: continue
            done.append((a, '')); continue
        if not mine: continue
        f = rng.choice(mine)
        if rng.random() < .3: f = max(mine, key=lambda x: (os.path.getsize(root + '/' + x), x))
        if rng.random() < .2 and a not in ('delete', 'truncate', 'empty', 'garbage', 'swap', 'deldir', 'touch', 'longer'):
            for g in mine: edit(rng, root + '/' + g, a)
            done.append((a, 'all')); continue
        p = root + '/' + f; d = bytearray(open(p, 'rb').read())
        if a == 'deldir':
            if '/' in f: shutil.rmtree(root + '/' + f.split('/')[0]); done.append((a, f.split('/')[0]))
            continue
        if a == 'delete': os.unlink(p); done.append((a, f)); continue
        if a == 'touch':
            tm = rng.choice([1, 946684800, 1700000000, 4102444800]); os.utime(p, (tm, tm)); done.append((a, f)); continue
        if a == 'swap':
            g = rng.choice(mine); q = root + '/' + g; e = open(q, 'rb').read()
            open(q, 'wb').write(d); open(p, 'wb').write(e); done.append((a, f, g)); continue
        edit(rng, p, a); done.append((a, f))
    return done


# ------------------------------------------------------------- faults
OPEN_E = [13, 24, 28, 30, 5, 2, 23, 12, 122]      # EACCES EMFILE ENOSPC EROFS EIO ENOENT ENFILE ENOMEM EDQUOT
WRITE_E = [28, 5, 122, 27, 12]                    # ENOSPC EIO EDQUOT EFBIG ENOMEM
READ_E = [5, 21, 12, 116]                         # EIO EISDIR ENOMEM ESTALE
MKDIR_E = [13, 28, 30, 5, 122, 31]                # ... EMLINK


def pick_fault(rng, e, kinds):
    f = _pick_fault(rng, e, kinds)
    if f and f['action'] in ('errno', 'short'): f['op'] = e.op      # an error only hits an operation it fits
    return f


def _pick_fault(rng, e, kinds):
    """a fault fitting event e; kinds: set of allowed kinds: err, short, eintr, kill, signal"""
    op = e.op
    k = [x for x in kinds]
    rng.shuffle(k)
    for kind in k:
        if kind == 'kill':
            a = rng.choice(['kill', 'killafter', 'torn'])
            return {'at': e.idx, 'action': a, 'p': rng.randrange(1, max(2, e.size)) if a == 'torn' else 0}
        if kind == 'short' and op in ('read', 'pread', 'readv', 'write', 'writev', 'pwrite') and e.size > 1:
            n = max(e.ret, 2) if op in ('read', 'pread', 'readv') else e.size
            return {'at': e.idx, 'action': 'short', 'p': rng.choice([1, max(1, n - 1), rng.randrange(1, n), max(1, n // 2)])}
        if kind == 'eintr' and op in ('read', 'pread', 'readv', 'write', 'writev', 'pwrite'): return {'at': e.idx, 'action': 'errno', 'p': 4}
        if kind == 'signal': return {'at': e.idx, 'action': 'signal', 'p': rng.choice([2, 15, 1, 13])}
        if kind == 'err':
            if e.cls == 'PROC':
                if op == 'fork': return {'at': e.idx, 'action': 'errno', 'p': rng.choice([11, 12])}
                if op == 'exec' and e.task > 0: return {'at': e.idx, 'action': 'errno', 'p': rng.choice([12, 7, 13, 2])}
                continue
            if op in ('open', 'openat', 'openat2', 'creat'): return {'at': e.idx, 'action': 'errno', 'p': rng.choice(OPEN_E)}
            if op in ('write', 'writev', 'pwrite'): return {'at': e.idx, 'action': 'errno', 'p': rng.choice(WRITE_E)}
            if op in ('read', 'pread', 'readv'): return {'at': e.idx, 'action': 'errno', 'p': rng.choice(READ_E)}
            if op == 'close': return {'at': e.idx, 'action': 'errno', 'p': rng.choice([5, 28, 122])}
            if op == 'mkdir': return {'at': e.idx, 'action': 'errno', 'p': rng.choice(MKDIR_E)}
            if op in ('fsync', 'fdatasync', 'ftruncate', 'truncate', 'fallocate', 'copyrange', 'sendfile'): return {'at': e.idx, 'action': 'errno', 'p': rng.choice([5, 28])}
            if op in ('rename', 'unlink', 'link', 'symlink', 'rmdir', 'chmod', 'fchmod', 'utime'): return {'at': e.idx, 'action': 'errno', 'p': rng.choice([5, 13, 28, 30])}
            if op in ('stat', 'access', 'chdir', 'readdir'): return {'at': e.idx, 'action': 'errno', 'p': rng.choice([5, 13, 12])}
            if op == 'mmap': return {'at': e.idx, 'action': 'errno', 'p': rng.choice([12, 19])}
    return None
