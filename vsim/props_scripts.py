"""Properties of the Python tools of the repository: C12 (sphinx-doc-generator.py), C13 (build.py)."""
import os, re, copy, json, random, shutil, hashlib
from . import world, build
from .engine import Prop
from .world import read_tree, files_of, clear_dir, put, powerloss, pick_fault, edit
from .props_binder import viol, diff_files, firstdiff

PY = '/usr/bin/python3'


# ------------------------------------------------------------------------------------------------ C12
SEG = ['core', 'io', 'pose', 'a', 'b', 'numeric', 'x1', 'util_2', 'Zeta', 'protocols', 'm', 'std', 'k', 'core2']


def new_modules(rng):
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 20, 40])
    if rng.random() < .06: n = rng.choice([150, 420])
    ms = set(); pool = ['']
    for _ in range(n):
        b = rng.choice(pool); s = rng.choice(SEG) if n < 100 else rng.choice(SEG) + str(rng.randrange(1000))
        m = b + '.' + s if b else s
        if m.count('.') > 5: continue
        ms.add(m)
        if rng.random() < .6: pool.append(m)
    l = sorted(ms)
    if rng.random() < .2: rng.shuffle(l)
    return l


def listing(mods, style):
    if style == 'nl': return '\n'.join(mods) + '\n'
    if style == 'noend': return ' '.join(mods)
    if style == 'wild': return '  ' + ' \n'.join(mods) + '  \n\n'
    return ''.join(m + ' ' for m in mods)          # what the generator writes


class C12(Prop):
    id = 'C12'
    level = 'fault_enumeration'
    needs_binder = False
    threads = False
    rule = 'case = module list (or package tree) x options x initial output directory x (fault plan | kill points and stale left-overs followed by a clean rerun | interleaving of 2-3 concurrent runs); non-trivial: a fault or kill fired, a preemption happened or the directory was not empty'
    quick, thorough = 400, 20000
    components = {'real': 'sphinx-doc-generator.py from /repo, CPython, kernel file system (tmpfs)', 'simulated': 'outcome and order of every file system call, randomness, hash seed, loss of unsynced data, interleaving', 'stub': 'none'}
    assumptions = ['x86-64 Linux; the system call interface is the only way to the file system']

    def spec(self, rng):
        s = {'mods': new_modules(rng), 'style': rng.choice(['gen', 'gen', 'nl', 'noend', 'wild']), 'root': rng.choice([None, None, 'pyr', 'my_root']), 'file': rng.choice(['demo.modules', 'pyrosetta.modules', 'x.y.modules']),
             'depth': rng.choice([None, None, None, 1, 2, 3]), 'js': rng.random() < .5, 'jsweb': rng.choice([None, None, '../_static']), 'out': rng.choice(['docs', 'docs', 'new/deep/docs', 'docs/', './docs']), 'tree': False, 'pyhash': rng.randrange(1, 1000)}
        if rng.random() < .2: s['tree'] = True; s['depth'] = None
        return s

    def mutate(self, rng, s):
        s = copy.deepcopy(s)
        if s['mods'] and rng.random() < .5: s['mods'].pop(rng.randrange(len(s['mods'])))
        else:
            m = rng.choice(s['mods'] + ['']); m = (m + '.' if m else '') + 'extra%d' % rng.randrange(99)
            if m not in s['mods']: s['mods'].append(m)
        if rng.random() < .2: s['depth'] = rng.choice([None, 1, 2])
        return s

    # ---- the model
    def tree_mods(self, s):
        """dotted modules of the package tree: every ancestor is a package"""
        r = set()
        for m in s['mods']:
            p = m.split('.')
            for i in range(1, len(p) + 1): r.add('.'.join(p[:i]))
        return r

    def model(self, s):
        root = s['root'] or ('pkgdir' if s['tree'] else s['file'].split('.')[0])
        if s['tree']: ms = [root] + [root + '.' + m for m in self.tree_mods(s)]
        else: ms = [root] + [root + '.' + m for m in s['mods'] if s['depth'] is None or m.count('.') < s['depth']]
        return {m: sorted(x for x in ms if x.rpartition('.')[0] == m) for m in ms}

    def check_page(self, name, subs, text):
        """a complete page names its module, lists exactly its direct sub-modules and ends with the automodule directive"""
        last = name.split('.')[-1]
        L = text.split('\n')
        if last not in L: return 'no title'
        i = L.index(last)
        if i + 1 >= len(L) or L[i + 1] != '-' * len(last): return 'title is not underlined'
        if '.. toctree::' not in L: return 'no table of contents'
        j = L.index('.. toctree::') + 1; items = []
        while j < len(L) and (not L[j].strip() or L[j].startswith(' ')):
            t = L[j].strip()
            if t and not t.startswith(':'): items.append(t)
            j += 1
        if items != subs and sorted(items) != subs: return 'sub-modules %s instead of %s' % (items[:6], subs[:6])
        if '.. automodule:: ' + name not in L: return 'no automodule directive'
        if text.count('.. automodule:: ') != 1: return 'several automodule directives'
        k = L.index('.. automodule:: ' + name)
        if ':members:' not in text[text.index('.. automodule:: '):] : return 'cut off after the automodule directive'
        return None

    # ---- running
    def setup(self, w, s):
        key = json.dumps([s['mods'], s['style'], s['file'], s['tree']])
        if getattr(w, '_sphinx', None) == key: return
        clear_dir(w.inp)
        if s['tree']:
            ms = self.tree_mods(s); order = sorted(ms); random.Random(s['pyhash']).shuffle(order)
            pk = {m.rpartition('.')[0] for m in ms} - {''}
            put(w.inp + '/pkgdir/__init__.py', '')
            for m in order:
                p = w.inp + '/pkgdir/' + m.replace('.', '/')
                if m in pk or hash_free(m): put(p + '/__init__.py', '')
                else: put(p + '.py', '')
            put(w.inp + '/pkgdir/data/readme.txt', 'x'); put(w.inp + '/pkgdir/notes.txt', 'x')
        else: put(w.inp + '/' + s['file'], listing(s['mods'], s['style']))
        w._sphinx = key

    def argv(self, w, s):
        a = [PY, '-S', '-B', os.path.join(build.REPO, 'sphinx-doc-generator.py')]
        if s['root']: a += ['--root', s['root']]
        if s['depth'] is not None: a += ['--depth', str(s['depth'])]
        if s['js']: a += ['--javascript-path', w.out + '/static']
        if s['jsweb']: a += ['--javascript-web-path', s['jsweb']]
        return a + ['-o', s['out'], w.inp + '/' + ('pkgdir' if s['tree'] else s['file'])]

    def proc(self, w, s): return {'argv': self.argv(w, s), 'cwd': w.out, 'preload': False, 'env': {'PYTHONHASHSEED': str(s['pyhash']), 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONIOENCODING': 'utf-8', 'LC_ALL': 'C.UTF-8'}}

    def golden(self, w, s):
        key = ('sphinx', json.dumps({k: v for k, v in s.items() if k != 'pyhash'}, sort_keys=True))
        if key in w.cache: return w.cache[key]
        aside = w.root + '/aside'; os.rename(w.out, aside); os.makedirs(w.out + '/static')
        hs = w.lasthash.copy(); self.setup(w, s); r = w.sim([self.proc(w, s)], tag='golden'); w.lasthash = hs
        w.stats['golden_runs'] += 1
        r.files = files_of(read_tree(w.out)); shutil.rmtree(w.out); os.rename(aside, w.out)
        if len(w.cache) > 60: w.cache.pop(next(iter(w.cache)))
        w.cache[key] = r
        return r

    def expected(self, w, s):
        """-> (files, violation): the undisturbed run judged against the model"""
        g = self.golden(w, s)
        if not g.ok(): return None, viol('undisturbed-run-fails', 'undisturbed run into an empty directory fails', w, g)
        d = os.path.normpath(s['out']); md = self.model(s)
        want = {d + '/' + m + '.rst' for m in md} | ({'static/summary.js'} if s['js'] else set())
        if set(g.files) != want: return None, viol('wrong-set-of-pages', 'files written: missing %s, unexpected %s' % (sorted(want - set(g.files))[:4], sorted(set(g.files) - want)[:4]), w, g)
        for m, subs in md.items():
            e = self.check_page(m, subs, g.files[d + '/' + m + '.rst'].decode('utf-8', 'replace'))
            if e: return None, viol('bad-page', 'page of %s: %s' % (m, e), w, g)
        if s['js'] and not (g.files['static/summary.js'].decode('utf-8', 'replace').count('{') == g.files['static/summary.js'].decode('utf-8', 'replace').count('}') > 0): return None, viol('bad-script', 'summary script is not complete', w, g)
        return g.files, None

    def cases(self, rng, w):
        s = self.spec(rng)
        clear_dir(w.out)
        g = self.golden(w, s)
        evs = [e for e in g.events if e.cls in ('OUT', 'IN', 'STD') and e.op not in ('stat', 'access')]   # failing stat is outside the statement
        if not evs: evs = [e for e in g.events]
        outs = [e for e in evs if e.cls == 'OUT' and (e.mut or e.op == 'close')]; rd = [e for e in evs if e.cls == 'IN']
        total = sum(e.size for e in outs if e.op in world.OUT_OPS_W)
        yield {'specs': [s], 'steps': [{'op': 'run', 's': 0}], 'par': None}
        for _ in range(9):      # faults
            x = rng.random(); st = {'op': 'run', 's': 0, 'faults': []}
            if x < .2 and total: st['disk'] = rng.choice([0, rng.randrange(total), max(0, total - 1), rng.randrange(total)])
            elif x < .45 and rd:
                e = rng.choice(rd); st['faults'] = [f for f in [pick_fault(rng, e, ['err', 'err', 'short', 'eintr'])] if f]
                if e.op == 'read' and rng.random() < .5: st['faults'] = [{'at': e.idx, 'op': 'read', 'action': 'short', 'p': rng.randrange(1, max(2, e.ret))}, {'at': e.idx + 1, 'op': 'read', 'action': 'errno', 'p': 5}]
            elif x < .75 and outs: st['faults'] = [f for f in [pick_fault(rng, rng.choice(outs), ['err'])] if f]
            elif outs:
                st['faults'] = [f for f in [pick_fault(rng, rng.choice(evs), ['err', 'short', 'eintr']) for _ in range(rng.randrange(1, 4))] if f]
                if rng.random() < .3: st['faults'] = [{'from': rng.choice(outs).idx, 'cls': 'OUT', 'ops': 'write,writev,close,openatw,mkdir', 'action': 'errno', 'p': rng.choice([28, 5, 13])}]
            steps = [st]
            if rng.random() < .4: steps.insert(0, {'op': 'run', 's': 1})
            if len(steps) > 1 and rng.random() < .6: steps.insert(1, {'op': 'stale', 'seed': rng.randrange(10 ** 9)})
            yield {'specs': [s, self.mutate(rng, s)], 'steps': steps, 'par': None}
        for _ in range(6):      # crashes, then a clean run
            specs = [s, self.mutate(rng, s)]; steps = []
            if rng.random() < .4: steps.append({'op': 'run', 's': rng.randrange(2)})
            for _ in range(rng.choice([1, 1, 2])):
                if evs: steps.append({'op': 'run', 's': rng.randrange(2) if rng.random() < .4 else 0, 'faults': [pick_fault(rng, rng.choice(outs or evs), ['kill'])]})
                x = rng.random()
                if x < .4: steps.append({'op': 'powerloss', 'seed': rng.randrange(10 ** 9)})
                elif x < .6: steps.append({'op': 'stale', 'seed': rng.randrange(10 ** 9)})
            steps.append({'op': 'run', 's': 0})
            yield {'specs': specs, 'steps': steps, 'par': None}
        if s['mods'] and len(s['mods']) < 30:
            for _ in range(4):      # concurrent runs
                sp = dict(s, out=rng.choice(['docs', 'new/deep/docs', 'new/docs']))
                yield {'specs': [sp], 'steps': [], 'par': {'n': rng.choice([2, 2, 3]), 'sched': [rng.randrange(10 ** 9), rng.choice([10, 30, 60, 90])], 'preempt': None}}

    def run(self, case, w):
        clear_dir(w.out); os.makedirs(w.out + '/static')
        w.nontrivial = False
        before = {}; written = set()
        for i, st in enumerate(case['steps']):
            if st['op'] == 'run':
                s = case['specs'][st['s']]
                want, v = self.expected(w, s)
                if v: return v
                self.setup(w, s)
                before = read_tree(w.out)
                if len(before) > 1: w.nontrivial = True
                r = w.sim([self.proc(w, s)], faults=st.get('faults', ()), disk={'OUT': st['disk']} if st.get('disk') is not None else None)
                f = files_of(read_tree(w.out))
                written = {os.path.relpath(e.path, w.out) for e in r.events if e.cls == 'OUT' and e.mut and e.op != 'mkdir'}
                if any(e.applied for e in r.events): w.nontrivial = True
                clean = not st.get('faults') and st.get('disk') is None
                w.probes['ok' if r.ok() else 'failed'] += 1
                if clean and not r.ok(): return viol('rerun-fails', 'undisturbed run over an existing directory fails', w, r)
                if r.ok():
                    d = diff_files(want, f)
                    if d: return viol('rerun-does-not-converge' if clean else 'success-with-wrong-output', 'exit status 0, but: ' + d, w, r)
                    if set(f) - set(want) - set(files_of(before)): return viol('unexpected-file', 'created %s' % sorted(set(f) - set(want) - set(files_of(before)))[:3], w, r)
                for k in before:
                    if before[k][0] == 'f' and k not in want and f.get(k) != before[k][1]: return viol('foreign-touched', 'file %s is not a page of this run but was changed' % k, w, r)
            elif st['op'] == 'powerloss': h = powerloss(random.Random(st['seed']), w.out, before, written); w.lasthash.update(repr(h).encode())
            else:
                rng = random.Random(st['seed'])
                for k in sorted(files_of(read_tree(w.out, False))):
                    x = rng.random()
                    if x < .15: put(w.out + '/' + k, rng.choice(['', 'stale', 'x' * 5000]))
                    elif x < .4: edit(rng, w.out + '/' + k, rng.choice(['truncate', 'append', 'flip', 'garbage', 'flipend', 'flipstart', 'nl', 'swapbytes', 'swaplines', 'digit', 'dropline', 'dupline', 'front', 'flip', 'space', 'case']))
                    elif x < .5: os.unlink(w.out + '/' + k)
                    if x < .4 and rng.random() < .5: tm = rng.choice([1, 946684800, 1700000000, 4102444800]); os.utime(w.out + '/' + k, (tm, tm))
                if rng.random() < .5: put(w.out + '/docs/other.page.rst', 'keep')
        if case['par']:
            s = case['specs'][0]; p = case['par']
            want, v = self.expected(w, s)
            if v: return v
            self.setup(w, s)
            kw = {'sched': p['sched']} if p['preempt'] is None else {'preempt': p['preempt']}
            r = w.sim([self.proc(w, s) for _ in range(p['n'])], yields=['OUT'], **kw)
            self.last_preempts = r.preempts
            w.nontrivial = bool(r.preempts) or bool(p['preempt'])
            for i in range(p['n']):
                if not r.ok(i): return viol('concurrent-run-fails', 'run %d fails: %s' % (i, r.text[i][-300:]), w, r)
            d = diff_files(want, files_of(read_tree(w.out)))
            if d: return viol('concurrent-runs-corrupt', d, w, r)
        return None

    def shrink(self, case):
        if case['par']:
            p = case['par']
            if p['preempt'] is None:
                c = copy.deepcopy(case); c['par']['preempt'] = [list(x) for x in getattr(self, 'last_preempts', [])]; yield c
            else:
                n = len(p['preempt']); k = max(1, n // 2)
                while k >= 1:
                    for i in range(0, n, k):
                        c = copy.deepcopy(case); del c['par']['preempt'][i:i + k]; yield c
                    k //= 2
            if p['n'] > 2: c = copy.deepcopy(case); c['par']['n'] = 2; yield c
        for i in range(len(case['steps']) - 1):
            c = copy.deepcopy(case); c['steps'].pop(i); yield c
        for i, st in enumerate(case['steps']):
            for j in range(len(st.get('faults', []))):
                if len(st['faults']) > 1: c = copy.deepcopy(case); c['steps'][i]['faults'].pop(j); yield c
        for i, s in enumerate(case['specs']):
            for j in range(min(len(s['mods']), 25)): c = copy.deepcopy(case); c['specs'][i]['mods'].pop(j); yield c
            for k in ('root', 'depth', 'jsweb'):
                if s[k] is not None: c = copy.deepcopy(case); c['specs'][i][k] = None; yield c
            if s['js']: c = copy.deepcopy(case); c['specs'][i]['js'] = False; yield c

    def describe(self, case): return json.dumps({'specs': [dict(s, mods=s['mods'][:12]) for s in case['specs']], 'steps': case['steps'], 'par': case['par']})[:900]


def hash_free(m): return len(m) % 3 == 0     # some leaves are packages


# ------------------------------------------------------------------------------------------------ C13
VERS = [['13', '14.0.0'], ['12', '12.0.1'], ['14', '14.0.6'], ['13.2', '13'], ['9', '3.4']]
REVS = ['%040x' % (0xabc123 + 7919 * i) for i in range(4)]
TOOLS = ['git', 'curl', 'wget', 'clang++', 'g++', 'tar', 'cmake', 'ninja', 'clang', 'gcc', 'which']
REAL = ['mv', 'rm', 'mkdir', 'cat', 'ls', 'cp', 'sh', 'python3', 'sleep', 'true', 'false', 'test', 'ln', 'touch', 'env', 'chmod', 'cmp', 'diff', 'grep', 'sed', 'head', 'tail', 'dirname', 'basename', 'uname', 'find', 'rmdir', 'readlink', 'realpath', 'xargs', 'awk', 'cut', 'sort', 'tr', 'wc', 'tee', 'date', 'bash', 'nproc', 'stat', 'mktemp', 'sync', 'timeout', 'unlink', 'hostname', 'id', 'echo', 'printf', 'md5sum', 'sha1sum', 'sha256sum']


class C13(Prop):
    id = 'C13'
    level = 'fault_enumeration'
    needs_binder = False
    threads = False
    rule = 'case = history of 1-5 invocations of build.py (from an empty directory, or from the state left by 1-2 complete installations) with changing source revision, LLVM version, compiler and build type, each undisturbed, killed at a file operation, with a failing external step or a failing system call; then one undisturbed invocation (must complete) and a repetition (must do nothing); non-trivial: a kill, fault or failing step fired'
    quick, thorough = 420, 8000
    quick_cap = 100
    components = {'real': 'build.py from /repo, CPython, /bin/sh, mv, kernel file system (tmpfs)', 'simulated': 'outcome of every file system call, kill points, sleeps, randomness, hash seed', 'stub': 'git, curl, tar, cmake, ninja, clang, gcc, which (sim/faketools.cpp): same files, same failure and partial-result behaviour, tiny payloads'}
    assumptions = ['kills only, no loss of unsynced data across a power failure (a build tree is not synced by anybody)', 'the stand-ins model the on-disk behaviour of the real tools: rename-based mv, in-place extraction, stale index.lock, removal of a failed clone']

    def prepare(self, ctx): ctx.fake = build.compiled('faketools', [os.path.join(build.VERIF, 'sim', 'faketools.cpp')])

    def bindir(self, w):
        b = w.root + '/bin'
        if not os.path.isdir(b):
            os.makedirs(b)
            for t in TOOLS: os.symlink(w.ctx.fake, b + '/' + t)
            for t in REAL:
                for d in ('/usr/bin/', '/bin/'):
                    if os.path.exists(d + t): os.symlink(d + t, b + '/' + t); break
        return b

    script = 'build.py'

    def given(self, w, o): return []

    def opts(self, rng): return {'ver': VERS[0], 'llvm': rng.choice(['14.0.5', '14.0.5', '13.0.0', '6.0.1', None]), 'cc': rng.choice(['clang', 'clang', 'gcc', None]), 'debug': rng.random() < .2, 'jobs': rng.choice([None, 2, 0])}

    def area(self, w, rev):
        """source revision checked out in the working directory"""
        put(w.out + '/.git/HEAD', rev + '\n'); put(w.out + '/.git/config', 'x'); put(w.out + '/.git/objects', 'other project\n'); put(w.out + '/source/REV', rev + '\n'); put(w.out + '/source/CMakeLists.txt', 'binder\n')

    def fresh(self, w):
        for e in list(os.scandir(w.out)):
            if e.is_dir(follow_symlinks=False): shutil.rmtree(e.path)
            else: os.unlink(e.path)

    def invoke(self, w, st, **kw):
        self.area(w, st['rev'])
        b = self.bindir(w); o = st['o']
        log = w.root + '/sim/tools.log'
        if os.path.exists(log): os.unlink(log)
        a = [PY, '-S', '-B', os.path.join(build.REPO, self.script)]
        if o['llvm']: a += ['--llvm-version', o['llvm']]
        if o['cc']: a += ['--compiler', o['cc']]
        if o['debug']: a += ['--binder-debug']
        if o['jobs'] is not None: a += ['-j'] + ([str(o['jobs'])] if o['jobs'] else [])
        if o.get('gip'): a += ['--gcc-install-prefix', o['gip']]
        a += self.given(w, o)
        env = {'PATH': b, 'PYTHONHASHSEED': str(st.get('pyhash', 1)), 'PYTHONDONTWRITEBYTECODE': '1', 'LC_ALL': 'C.UTF-8', 'FAKE_LOG': log, 'FAKE_BIN': '/sim', 'FAKE_GCC': o.get('ver', VERS[0])[0], 'FAKE_CLANG': o.get('ver', VERS[0])[1]}
        if st.get('noise'): env['FAKE_NOISE'] = str(st['noise'])
        if st.get('rc'): env['FAKE_RC'] = str(st['rc'])
        if st.get('step'): env['FAKE_FAIL'] = '%d:%s' % tuple(st['step'])
        r = w.sim([{'argv': a, 'cwd': w.out, 'preload': False, 'env': env}], faults=st.get('faults', ()), disk={'OUT': st['disk']} if st.get('disk') is not None else None, classes=[('OUT', w.out)], budget=20000, **kw)
        r.tools = open(log).read().splitlines() if os.path.exists(log) else []
        if st.get('step') and len(r.tools) > st['step'][0]: k = 'step:%s:%s' % (r.tools[st['step'][0]].split()[0], st['step'][1]); w.stats['faults'][k] = w.stats['faults'].get(k, 0) + 1; r.stepfail = True
        else: r.stepfail = False
        return r

    def product(self, w):
        """the files an installation consists of"""
        f = files_of(read_tree(w.out + '/build')) if os.path.isdir(w.out + '/build') else {}
        return {k: v for k, v in f.items() if re.search(r'/bin/binder$|/lib/clang/', k) or k.startswith('pybind11/include/') or k == 'pybind11/.git/HEAD'}

    def golden(self, w, st):
        key = ('build', json.dumps([st['rev'], st['o']], sort_keys=True))
        if key in w.cache: return w.cache[key]
        aside = w.root + '/aside13'; os.rename(w.out, aside); os.makedirs(w.out)
        hs = w.lasthash.copy(); r = self.invoke(w, {'rev': st['rev'], 'o': st['o']}, tag='golden'); w.lasthash = hs
        w.stats['golden_runs'] += 1
        r.files = self.product(w); shutil.rmtree(w.out); os.rename(aside, w.out)
        if len(w.cache) > 60: w.cache.pop(next(iter(w.cache)))
        w.cache[key] = r
        return r

    def expected(self, w, st):
        g = self.golden(w, st)
        if not g.ok(): return None, viol('clean-install-fails', 'undisturbed invocation in a clean directory fails', w, g)
        bs = [k for k in g.files if k.endswith('/bin/binder')]
        if len(bs) != 1: return None, viol('clean-install-incomplete', 'no executable', w, g)
        t = g.files[bs[0]].decode('latin-1'); o = st['o']
        v = o['llvm'] or ('14.0.5' if o['cc'] == 'gcc' and int(o.get('ver', VERS[0])[0].split('.')[0]) >= 13 else '6.0.1')
        want = 'conf=llvm %s|tools %s|clang %s|ctools %s|x %s|y %s|%s|%s ' % (v, v, v, v, v, v, {'gcc': 'g++'}.get(o['cc'], 'clang++'), 'Debug' if o['debug'] else 'Release')
        if 'rev=%s ' % st['rev'] not in t or want not in t or 'objs=obj a %s,obj b %s,obj c %s end' % (v, v, v) not in t: return None, viol('clean-install-wrong', 'executable is %r, wanted rev=%s %s' % (t, st['rev'], want), w, g)
        hd = [x for k, x in g.files.items() if '/lib/clang/' in k]
        if len(hd) != 1 or b'headers clang ' + v.encode() not in hd[0]: return None, viol('clean-install-incomplete', 'compiler headers were not installed', w, g)
        pin = g.files.get('pybind11/.git/HEAD', b'').strip()
        if not re.fullmatch(rb'[0-9a-f]{40}', pin): return None, viol('clean-install-wrong', 'pybind11 is not at a pinned revision', w, g)
        return g, None

    def judge(self, w, st, g, r, what):
        d = diff_files(g.files, self.product(w))
        if d: return viol('incomplete-install-accepted', '%s exits 0, but the installation is not complete: %s' % (what, d), w, r)

    def other_revision(self, w, case, st):
        p = self.product(w)
        return any(not diff_files(self.golden(w, dict(st, rev=x)).files, p) for x in sorted({y['rev'] for y in case['steps'] + (case.get('base') or [])}))

    def start(self, w, base):
        """put the state after some undisturbed invocations in place; -> violation"""
        hs = w.lasthash.copy()
        try:
            v = self.start_(w, base)
        finally: w.lasthash = hs
        w.lasthash.update(json.dumps(base).encode())
        return v

    def start_(self, w, base):
        self.fresh(w)
        if not base: return None
        key = hashlib.sha256(json.dumps(base, sort_keys=True).encode()).hexdigest()[:20]; d = w.root + '/snap13/' + key
        known = w.__dict__.setdefault('snap13', {})
        if key not in known:
            v = self.start_(w, base[:-1])
            if not v:
                r = self.invoke(w, base[-1], tag='golden')
                if not r.ok(): v = viol('cannot-complete', 'undisturbed invocation over a complete installation fails', w, r)
                else:
                    g, v = self.expected(w, base[-1])
                    if not v: v = self.judge(w, base[-1], g, r, 'undisturbed invocation over a complete installation')
            if len(known) > 24: k = next(iter(known)); known.pop(k); shutil.rmtree(w.root + '/snap13/' + k)
            shutil.copytree(w.out, d, symlinks=True); known[key] = v
        self.fresh(w); shutil.copytree(d, w.out, symlinks=True, dirs_exist_ok=True)
        return known[key]

    def change(self, rng, st):
        st = copy.deepcopy(st)
        x = rng.random()
        if x < .4: st['rev'] = rng.choice([r for r in REVS if r != st['rev']])
        elif x < .55: st['o']['cc'] = rng.choice([c for c in ('gcc', 'clang', None) if c != st['o']['cc']])
        elif x < .75: st['o']['llvm'] = rng.choice([c for c in ('14.0.5', '13.0.0', '6.0.1', None) if c != st['o']['llvm']])
        elif x < .85: st['o']['debug'] = not st['o']['debug']
        return st

    def transitions(self, rng, w):
        a = {'rev': rng.choice(REVS), 'o': dict(self.opts(rng), ver=rng.choice(VERS))}
        base = [a]
        if rng.random() < .45:
            b = self.change(rng, a)
            if rng.random() < .5: b = copy.deepcopy(a); b['o']['llvm'] = '13.0.0' if a['o']['llvm'] != '13.0.0' else '14.0.5'
            base.append(b)
        t = self.change(rng, base[-1])
        if len(base) > 1 and rng.random() < .6: t = self.change(rng, a)   # back to the first one's neighbourhood
        w.lasthash = hashlib.sha256()
        v = self.start(w, base)
        w.dirseed = 0; dry = self.invoke(w, t, tag='golden')
        if v or not dry.ok(): yield {'base': base, 'steps': [], 'final': t, 'undo': None}; return
        groups = {}
        for e in dry.events:
            if e.idx and (e.mut or e.op in ('exec', 'close')): groups.setdefault((e.op, re.sub(r'[0-9a-f]{6,}|[0-9]+', '0', os.path.relpath(e.path, w.out) if e.cls == 'OUT' else e.path).split('/')[-1]), []).append(e)
        if not groups: return
        for _ in range(8):
            steps = []
            for _ in range(rng.choice([1, 1, 1, 2])):
                st = dict(copy.deepcopy(t), pyhash=rng.randrange(1, 99)); x = rng.random()
                if x < .25 and dry.tools: st['step'] = [rng.randrange(len(dry.tools)), rng.choice(['early', 'mid', 'late'])]
                else:
                    f = pick_fault(rng, rng.choice(groups[rng.choice(sorted(groups))]), ['kill'] if x < .85 else ['err'])
                    if f: st['faults'] = [f]
                steps.append(st)
            yield {'base': base, 'steps': steps, 'final': copy.deepcopy(rng.choice([t, t, base[-1], base[-1], base[0], self.change(rng, t)])), 'undo': None}

    def cases(self, rng, w):
        if rng.random() < .6:
            yield from self.transitions(rng, w); return
        self.fresh(w)
        ver = rng.choice(VERS); o = dict(self.opts(rng), ver=ver); rev = rng.choice(REVS)
        g = self.golden(w, {'rev': rev, 'o': o})
        n = len(g.events); nt = len(g.tools)
        muts = [e for e in g.events if e.mut] or g.events
        for _ in range(7):
            steps = []
            for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
                so = o if rng.random() < .55 else rng.choice([self.opts(rng), dict(o, cc=rng.choice(['gcc', 'clang'])), dict(o, llvm=rng.choice(['14.0.5', '13.0.0']))])
                so = dict(so, ver=ver)
                st = {'rev': rev if rng.random() < .6 else rng.choice(REVS), 'o': so, 'pyhash': rng.randrange(1, 99)}
                x = rng.random()
                if x < .45:
                    e = rng.choice(muts if rng.random() < .8 else g.events)
                    f = pick_fault(rng, e, ['kill'])
                    if rng.random() < .3: f['at'] = rng.randrange(0, e.idx + 1)
                    if rng.random() < .4: f['op'] = rng.choice(['unlink', 'rename', 'write', 'openat', 'rmdir', 'symlink', 'mkdir', 'close', 'write', 'unlink', e.op])
                    if f.get('op') and rng.random() < .6: f['at'] = rng.randrange(n)
                    st['faults'] = [f]
                elif x < .65: st['step'] = [rng.randrange(nt), rng.choice(['early', 'mid', 'late'])]
                elif x < .78:
                    f = pick_fault(rng, rng.choice(g.events), ['err'])
                    if f: st['faults'] = [f]
                elif x < .84: st['disk'] = rng.randrange(3000)
                steps.append(st)
            if rng.random() < .06: rng.choice(steps)['noise'] = 200000
            yield {'steps': steps, 'final': dict({'rev': rev, 'o': o}, **({'noise': 150000} if rng.random() < .06 else {})), 'undo': None}

    def run(self, case, w):
        w.nontrivial = bool(case.get('base'))
        v = self.start(w, case.get('base') or [])
        if v: return v
        for st in case['steps']:
            r = self.invoke(w, st)
            hit = any(e.applied for e in r.events) or r.stepfail
            if hit: w.nontrivial = True
            w.probes['ok' if r.ok() else 'killed' if r.sim_killed() else 'failed'] += 1
            if r.ok():
                g, v = self.expected(w, st)
                if v: return v
                v = self.judge(w, st, g, r, 'invocation')
                if v and hit and self.other_revision(w, case, st): v = None   # it could not find out the revision
                if v: return v
            elif not hit and not r.abort: return viol('cannot-complete', 'undisturbed invocation over left-overs of earlier ones fails', w, r)
            if any('reset' in t or 'fetch' in t for t in r.tools) and open(w.out + '/.git/HEAD').read().strip() != st['rev']: return viol('own-repository-reset', 'the revision of the source repository itself was changed', w, r)
        st = case['final']
        g, v = self.expected(w, st)
        if v: return v
        r = self.invoke(w, st)
        if not r.ok(): return viol('cannot-complete', 'undisturbed invocation after interrupted ones does not complete the installation', w, r)
        v = self.judge(w, st, g, r, 'undisturbed invocation after interrupted ones')
        if v: return v
        if case.get('rd', 0) % 5 > 1: return None
        r = self.invoke(w, st)
        bad = [t for t in r.tools if t.split()[0] in ('curl', 'tar', 'cmake', 'ninja') or t.startswith('git clone')]
        if bad: return viol('complete-install-redone', 'repeated over a complete installation, it runs: %s' % bad[:4], w, r)
        if not r.ok(): return viol('cannot-complete', 'repeated invocation over a complete installation fails', w, r)
        return self.judge(w, st, g, r, 'repeated invocation')

    def shrink(self, case):
        for i in range(len(case['steps'])): c = copy.deepcopy(case); c['steps'].pop(i); yield c
        for i in range(len(case.get('base') or [])): c = copy.deepcopy(case); c['base'].pop(i); yield c
        for i, st in enumerate(case['steps']):
            if st['o'] != case['final']['o']: c = copy.deepcopy(case); c['steps'][i]['o'] = case['final']['o']; yield c
            if st['rev'] != case['final']['rev']: c = copy.deepcopy(case); c['steps'][i]['rev'] = case['final']['rev']; yield c
            for k in ('step', 'faults', 'disk'):
                if st.get(k) is not None: c = copy.deepcopy(case); c['steps'][i].pop(k); yield c
        for k, x in (('debug', False), ('jobs', None), ('cc', None)):
            if case['final']['o'][k] != x:
                c = copy.deepcopy(case)
                for s in c['steps'] + [c['final']] + (c.get('base') or []): s['o'][k] = x
                yield c

    def describe(self, case): return json.dumps(case)[:900]


# ------------------------------------------------------------------------------------------------ C15
class C15(C13):
    id = 'C15'
    rule = 'case = history of 1-4 invocations of build-and-run-tests.py with changing revision, versions, compiler, given or installed tool, each undisturbed, killed, with a failing external step (including the self-tests themselves: status, signal, huge output) or a failing system call; then one undisturbed invocation; non-trivial: a kill, fault or failing step fired'
    quick, thorough = 300, 6000
    quick_cap = 60
    script = 'build-and-run-tests.py'
    components = {'real': 'build-and-run-tests.py and build.py from /repo, CPython, /bin/sh, mv, kernel file system (tmpfs)', 'simulated': 'outcome of every file system call, kill points, sleeps, randomness, hash seed', 'stub': 'git, curl, tar, cmake, ninja, clang, gcc, which and the self-test program (sim/faketools.cpp)'}

    def opts(self, rng): return dict(super().opts(rng), gip=rng.choice([None, None, None, '/opt/gcc 12'.replace(' ', '-')]), given=rng.choice(['', '', '', '', 'b', 'p', 'bp']))

    def given(self, w, o):
        a = []
        if 'b' in o['given']: put(w.out + '/given/binder', '#!given binder end\n'); a += ['--binder', w.out + '/given/binder']
        if 'p' in o['given']: [put(w.out + '/given/include/pybind11/' + k, '// given\n') for k in ('pybind11.h', 'pytypes.h', 'detail/common.h')]; a += ['--pybind11', w.out + '/given/include']
        return a

    def area(self, w, rev):
        super().area(w, rev)
        d = w.out + '/test'; os.makedirs(d, exist_ok=True)
        if not os.path.lexists(d + '/self-test.py'): os.symlink(w.ctx.fake, d + '/self-test.py')

    def change(self, rng, st):
        st = super().change(rng, st)
        if rng.random() < .2: st['o']['gip'] = rng.choice([g for g in (None, '/opt/gcc-12', '/opt/gcc-11') if g != st['o']['gip']])
        return st

    def want(self, w, st):
        """what the self-tests have to be run with"""
        g = self.golden(w, {'rev': st['rev'], 'o': dict(st['o'], given='')})
        if not g.ok(): return None, viol('clean-install-fails', 'undisturbed invocation in a clean directory fails', w, g)
        b = [x for k, x in g.files.items() if k.endswith('/bin/binder')]; o = st['o']
        if len(b) != 1 or 'pybind11/include/pybind11/pybind11.h' not in g.files: return None, viol('clean-install-incomplete', 'nothing installed', w, g)
        v = o['llvm'] or ('14.0.5' if o['cc'] == 'gcc' and int(o.get('ver', VERS[0])[0].split('.')[0]) >= 13 else '6.0.1'); t = b[0].decode('latin-1')
        conf = 'conf=llvm %s|tools %s|clang %s|ctools %s|x %s|y %s|%s|%s%s ' % (v, v, v, v, v, v, {'gcc': 'g++'}.get(o['cc'], 'clang++'), 'Debug' if o['debug'] else 'Release', '|' + o['gip'] if o['gip'] else '')
        if 'rev=%s ' % st['rev'] not in t or conf not in t: return None, viol('clean-install-wrong', 'executable is %r, wanted rev=%s %s' % (t, st['rev'], conf), w, g)
        h = [g.files['pybind11/include/pybind11/' + k] for k in ('pybind11.h', 'pytypes.h', 'detail/common.h')]
        if 'b' in o['given']: b = [b'#!given binder end\n']
        if 'p' in o['given']: h = [b'// given\n'] * 3
        return 'self-test [%s] [%s]' % (b[0].decode('latin-1').replace('\n', '~'), b''.join(h).decode('latin-1').replace('\n', '~')), None

    def cases(self, rng, w):
        self.fresh(w)
        ver = rng.choice(VERS); o = dict(self.opts(rng), ver=ver); rev = rng.choice(REVS); t = {'rev': rev, 'o': o}
        base = [t] if rng.random() < .4 else []
        if base: t = self.change(rng, t) if rng.random() < .8 else copy.deepcopy(t)
        hs = w.lasthash.copy(); self.start(w, base); w.dirseed = 0; g = self.invoke(w, t, tag='golden'); w.lasthash = hs
        if not g.ok() or not g.tools: yield {'base': base, 'steps': [], 'final': t, 'undo': None}; return
        muts = [e for e in g.events if e.mut] or g.events
        for _ in range(7):
            steps = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                st = dict(copy.deepcopy(t), pyhash=rng.randrange(1, 99)); x = rng.random()
                if rng.random() < .15: st = dict(self.change(rng, t), pyhash=5)
                if x < .35: st['step'] = [len(g.tools) - 1 - (g.tools[-1] == 'self-test-ok'), rng.choice(['early', 'mid', 'late'])]; st['rc'] = rng.choice([1, 1, 2, 3, 77, 127, 128, 255, -9, -11, -15, -6])
                elif x < .6: st['step'] = [rng.randrange(len(g.tools)), rng.choice(['early', 'mid', 'late'])]
                elif x < .75: st['faults'] = [pick_fault(rng, rng.choice(muts), ['kill'])]
                elif x < .95:
                    f = pick_fault(rng, rng.choice(g.events), ['err'])
                    if f: st['faults'] = [f]
                if rng.random() < .1: st['noise'] = rng.choice([70000, 300000])
                steps.append(st)
            yield {'base': base, 'steps': steps, 'final': copy.deepcopy(t), 'undo': None}

    def start_(self, w, base):
        self.fresh(w)
        if not base: return None
        self.invoke(w, base[0], tag='golden')

    def check(self, w, case, st, r, hit, last):
        want, v = self.want(w, st)
        if v: return v
        if r.abort and not hit: return viol('does-not-end', 'invocation does not end: ' + r.describe(), w, r)
        runs = [i for i, t in enumerate(r.tools) if t.startswith('self-test [')]
        for i in runs:
            if r.tools[i] != want and not (hit and self.unknown(r, st, w, case, want, r.tools[i])): return viol('tests-run-on-wrong-installation', 'self-tests are run with %s, wanted %s' % (r.tools[i], want), w, r)
        if r.ok():
            if not runs: return viol('success-without-tests', 'exit status 0, but the self-tests were not run', w, r)
            if r.tools[-1] != 'self-test-ok' or runs[-1] != len(r.tools) - 2: return viol('success-in-spite-of-failure', 'exit status 0, but the self-tests failed: %s' % r.tools[-1][:100], w, r)
        elif not hit: return viol('cannot-complete', ('undisturbed invocation after interrupted ones' if last else 'undisturbed invocation') + ' fails', w, r)

    def unknown(self, r, st, w, case, want, got):
        """a failing git leaves the revision unknown: the executable may then be of another revision"""
        x = lambda s: re.sub(r'rev=[0-9a-f]{40}', 'rev=', s)
        return x(want) == x(got)

    def run(self, case, w):
        w.nontrivial = False
        v = self.start(w, case.get('base') or [])
        if v: return v
        for st in case['steps']:
            r = self.invoke(w, st); hit = any(e.applied for e in r.events) or r.stepfail
            if hit: w.nontrivial = True
            w.probes['ok' if r.ok() else 'killed' if r.sim_killed() else 'failed'] += 1
            if st.get('step') and r.stepfail and r.tools[st['step'][0]].startswith('self-test ['): w.probes['self-tests failed'] += 1
            v = self.check(w, case, st, r, hit, False)
            if v: return v
        r = self.invoke(w, case['final'])
        return self.check(w, case, case['final'], r, False, True)


PROPS = [C12, C13, C15]
