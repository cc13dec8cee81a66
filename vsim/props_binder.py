"""Properties of the generator itself: C01..C11."""
import os, re, copy, json, random, shutil
from . import gen, world
from .engine import Prop
from .world import read_tree, files_of, clear_dir, put, powerloss, tamper, pick_fault

COMP = {'real': 'binder executable built from /repo, LLVM/clang libraries, libstdc++, kernel file system (tmpfs), /bin/sh and mkdir children',
        'simulated': 'outcome and order of every file/process system call (ptrace), heap allocator, clock, pid, randomness (preload), loss of unsynced data, time stamps',
        'stub': 'none'}
ASSUME = ['x86-64 Linux; the system call interface is the only way to the file system', 'silent corruption of data acknowledged by the disk is out of scope']


def own_lists(opts): return {opts['root'] + '.cpp', opts['root'] + '.sources', opts['root'] + '.modules'}


def diff_files(want, got, limit=4):
    """differences of expected files vs. tree of files; '' if all present and equal"""
    d = []
    for k in sorted(want):
        if k not in got: d.append('missing ' + k)
        elif got[k] != want[k]:
            a, b = want[k], got[k]
            i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            d.append('%s differs: expected %d bytes, found %d, first difference at %d' % (k, len(a), len(b), i))
        if len(d) >= limit: d.append('...'); break
    return '; '.join(d)


def bad_input(res):
    """the generated headers do not compile: a defect of the workload generator, never judged"""
    return bool(re.search(r'\d+ errors? generated', res.text[0]))


def viol(cls, detail, w=None, res=None):
    if res is not None:
        tail = [e.brief(w.root) for e in res.events if e.applied or (e.cls == 'OUT' and e.mut)]
        detail += '\n  ' + res.describe() + '\n  ' + '\n  '.join(tail[-14:]) + '\n  output: ' + res.text[0].replace(w.root, '@')[-400:]
    return {'class': cls, 'detail': detail.replace(w.root, '@') if w else detail}


class Hist(Prop):
    """case = {'projs': [...], 'steps': [...], 'stamp': seed}; run() walks the steps, after() judges"""
    components = COMP
    assumptions = ASSUME

    def reset(self, w):
        if not os.path.isdir(w.out): os.makedirs(w.out)
        clear_dir(w.out)

    def sim_step(self, w, case, st, **kw):
        proj = case['projs'][st['p']]
        w.install(proj)
        if st.get('replant'): w.replant(proj, st['replant'])
        env = dict(st.get('env') or {})
        if st.get('alloc'): env.update({'VSIM_FAIL': str(st['alloc'][0]), 'VSIM_FAILN': str(st['alloc'][1]), 'VSIM_FAILMIN': str((st['alloc'] + [0])[2])})
        pr = {'argv': w.argv(proj, st['o']), 'env': env}
        if 'umask' in st: pr['umask'] = st['umask']
        if 'cwd' in st: pr['cwd'] = os.path.join(w.root, st['cwd'])
        if st.get('place'):   # the project in another directory, named by the same relative paths
            pr['cwd'] = w.root + '/place/' + st['place']
            shutil.rmtree(w.root + '/place', ignore_errors=True); shutil.copytree(w.inp, pr['cwd'] + '/in')
        return w.sim([pr], faults=st.get('faults', ()), disk={'OUT': st['disk']} if st.get('disk') is not None else None, rand=st.get('rand', 7), budget=40000, **kw)

    def run(self, case, w):
        self.reset(w)
        st_rng = random.Random(case.get('stamp', 0))
        prev = {}
        written = set(); before = {}
        own = set()
        for i, st in enumerate(case['steps']):
            op = st['op']
            if op == 'run':
                before = read_tree(w.out)
                res = self.sim_step(w, case, st)
                after = read_tree(w.out)
                written = {os.path.relpath(e.path, w.out) for e in res.events if e.cls == 'OUT' and e.mut and e.op != 'mkdir'}
                own |= set(files_of(after))
                w.probes['run_ok' if res.ok() else 'run_failed' if not res.sim_killed() else 'run_killed'] += 1
                v = self.after(w, case, i, st, before, res, after)
                if v: return v
            elif op == 'powerloss': h = powerloss(random.Random(st['seed']), w.out, before, written, st.get('prob', .7)); w.probes['powerloss_files'] += len(h); w.lasthash.update(repr(h).encode())
            elif op == 'tamper': h = tamper(random.Random(st['seed']), w.out, own, st['n']); w.probes['tampered'] += len(h); w.lasthash.update(repr(h).encode())
            w.stamp(st_rng, base=st_rng.choice([1600000000, 1600000000, 1000000000, 2000000000, 4000000000]))
        return None

    def golden(self, w, case, st): return w.golden(case['projs'][st['p']], st['o'])

    def shrink(self, case):
        n = len(case['steps'])
        for i in range(n - 1):
            c = copy.deepcopy(case); c['steps'].pop(i); yield c
        for i, st in enumerate(case['steps']):
            f = st.get('faults')
            if f and len(f) > 1:
                for j in range(len(f)):
                    c = copy.deepcopy(case); c['steps'][i]['faults'].pop(j); yield c
            if st['op'] == 'run' and st['o']['flags']:
                for j in range(len(st['o']['flags'])):
                    c = copy.deepcopy(case); c['steps'][i]['o']['flags'].pop(j); yield c
            if st['op'] == 'tamper' and st['n'] > 1:
                c = copy.deepcopy(case); c['steps'][i]['n'] = st['n'] // 2; yield c
        for i, p in enumerate(case['projs']):
            if any(s.get('p') == i for s in case['steps']):
                for q in gen.shrink_project(p):
                    c = copy.deepcopy(case); c['projs'][i] = q; yield c

    def describe(self, case):
        return json.dumps({'headers': [[h['path'] for h in p['headers']] for p in case['projs']], 'steps': [{k: v for k, v in s.items()} for s in case['steps']]})[:900]


def warm_start(rng, proj, opts):
    """steps that put something into the output directory before the interesting run; project 0 is the interesting one"""
    projs = [proj]; steps = []
    x = rng.random()
    if x < .4: return projs, steps
    if x < .55: steps.append({'op': 'run', 'p': 0, 'o': opts})
    else:
        projs.append(gen.mutate(rng, proj)); o = opts if rng.random() < .6 else dict(gen.new_options(rng), root=opts['root'])
        steps.append({'op': 'run', 'p': 1, 'o': o})
    if rng.random() < .5: steps.append({'op': 'tamper', 'seed': rng.randrange(10 ** 9), 'n': rng.randrange(1, 5)})
    return projs, steps


def dry_events(prop, w, case):
    """events of the last step, undisturbed"""
    got = {}

    class D(type(prop)):
        def after(self, w, case, i, st, before, res, after):
            if i == len(case['steps']) - 1: got['res'] = res
            return None
    D().run(case, w)
    return got['res']


class C01(Hist):
    id = 'C01'
    quick_cap = 90
    rule = 'case = project x options x initial directory x fault plan (errors, short/interrupted transfers, disk full after n bytes, failing allocation, failing child processes); non-trivial: at least one injected fault fired; distinct by event log hash'
    quick, thorough = 150, 6000

    def cases(self, rng, w):
        proj = gen.new_project(rng); opts = gen.new_options(rng)
        if rng.random() < .12: proj = gen.pad(rng, proj, opts, w)
        projs, steps = warm_start(rng, proj, opts)
        base = {'projs': projs, 'steps': steps + [{'op': 'run', 'p': 0, 'o': opts}], 'stamp': rng.randrange(10 ** 6)}
        g = w.golden(proj, opts)
        if not g.ok(): return
        dry = dry_events(self, w, base)
        yield base
        evs = dry.events
        outs = [e for e in evs if e.cls == 'OUT' and (e.mut or e.op == 'close')]
        reads = [e for e in evs if e.cls == 'OUT' and not e.mut]
        prc = [e for e in evs if e.cls == 'PROC' and e.idx > 0]
        oth = [e for e in evs if e.cls in ('IN', 'CFG', 'STD')]
        total = sum(e.size for e in evs if e.cls == 'OUT' and e.op in world.OUT_OPS_W)
        firstout = next((e.allocs for e in evs if e.cls == 'OUT'), 0); last = evs[-1].allocs
        # every mutating operation once, with a random fault (systematic part)
        sysn = rng.sample(outs, min(len(outs), 14))
        for e in sysn:
            f = pick_fault(rng, e, ['err'])
            if f: yield self.mk(base, [f])
        for _ in range(16):
            x = rng.random()
            if x < .15: yield self.mk(base, [], disk=rng.choice([0, rng.randrange(total + 1), max(0, total - 1), rng.randrange(total + 1)]))
            elif x < .42:
                lo = firstout if rng.random() < .75 else max(0, firstout - 400) if rng.random() < .7 else 0
                yield self.mk(base, [], alloc=[rng.randrange(lo, max(lo + 1, last)), rng.choice([1, 1, 1, 2, -1]), rng.choice([0, 0, 0, 100, 300, 600, 1200, 3000, 8000])])
            elif x < .5 and prc: yield self.mk(base, [f for f in [pick_fault(rng, rng.choice(prc), ['err'])] if f])
            elif x < .58 and reads: yield self.mk(base, [f for f in [pick_fault(rng, rng.choice(reads), ['err', 'short', 'eintr'])] if f])
            elif x < .64 and oth: yield self.mk(base, [f for f in [pick_fault(rng, rng.choice(oth), ['err', 'short', 'eintr'])] if f])
            elif x < .74 and outs:
                cls_ops = rng.choice([('write,writev,pwrite', 'errno', rng.choice(world.WRITE_E)), ('close', 'errno', 5), ('openatw,openw,creatw,creat', 'errno', rng.choice(world.OPEN_E)), ('mkdir', 'errno', rng.choice(world.MKDIR_E)), ('fsync,fdatasync,rename,link', 'errno', 5)])
                yield self.mk(base, [{'from': rng.choice(outs).idx, 'cls': 'OUT', 'ops': cls_ops[0], 'action': cls_ops[1], 'p': cls_ops[2]}])
            elif outs:
                fs = []
                for e in sorted(rng.sample(outs + reads, min(len(outs + reads), rng.randrange(1, 4))), key=lambda e: e.idx):
                    f = pick_fault(rng, e, ['short', 'eintr'] if rng.random() < .5 else ['short', 'err', 'eintr'])
                    if f: fs.append(f)
                if any(c.task > 0 for c in evs) and rng.random() < .2: fs.append({'at': rng.choice([c.idx for c in evs if c.task > 0]), 'action': 'killone', 'p': 0})
                if rng.random() < .05: fs.append({'at': rng.choice(outs).idx, 'action': 'signal', 'p': rng.choice([2, 15, 13, 1])})
                if fs: yield self.mk(base, fs)

    def mk(self, base, faults, disk=None, alloc=None):
        c = copy.deepcopy(base); s = c['steps'][-1]
        s['faults'] = faults
        if disk is not None: s['disk'] = disk
        if alloc: s['alloc'] = alloc
        return c

    def after(self, w, case, i, st, before, res, after):
        if i != len(case['steps']) - 1: return None
        if st.get('alloc'): w.stats['faults']['alloc:fail'] = w.stats['faults'].get('alloc:fail', 0) + 1
        w.nontrivial = any(e.applied for e in res.events) or bool(st.get('alloc'))
        if not res.ok(): return None
        g = self.golden(w, case, st)
        d = diff_files(g.files, files_of(after))
        if d: return viol('success-with-wrong-output', 'exit status 0, but: ' + d, w, res)
        # a failing close of a file that was written means that what was written may be lost (delayed allocation, network file system)
        wr = {}
        for e in res.events:
            if e.cls != 'OUT': continue
            if e.op in ('open', 'openat', 'openat2', 'creat') and e.mut and e.ret >= 0: wr[e.path] = [False, None]
            elif e.op in world.OUT_OPS_W and e.ret > 0 and e.path in wr: wr[e.path][0] = True
            elif e.op == 'close' and 'w' in e.flags and e.applied and e.ret < 0 and e.path in wr and wr[e.path][0]: wr[e.path][1] = e
        for e in [x[1] for x in wr.values() if x[1]]:
            return viol('success-with-lost-data', 'exit status 0 although the data written to a file was reported lost: ' + e.brief(w.root), w, res)


class C02(Hist):
    id = 'C02'
    rule = 'case = earlier clean run(s), 1-3 interrupted runs (kill before/inside/after a file operation, torn write, error, failing allocation) with loss of unsynced data and clock jumps, then one clean run; non-trivial: an interruption fired or data was lost'
    quick, thorough = 220, 8000

    def cases(self, rng, w):
        proj = gen.new_project(rng); opts = gen.new_options(rng)
        if rng.random() < .12: proj = gen.pad(rng, proj, opts, w)
        g = w.golden(proj, opts)
        outs = [e for e in g.events if e.cls == 'OUT'] or g.events
        total = sum(e.size for e in g.events if e.cls == 'OUT' and e.op in world.OUT_OPS_W)
        for _ in range(12):
            projs, steps = [proj], []
            if rng.random() < .6:
                projs.append(gen.mutate(rng, proj)); steps.append({'op': 'run', 'p': rng.randrange(2), 'o': opts if rng.random() < .8 else dict(gen.new_options(rng), root=opts['root'])})
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                if rng.random() < .3: projs.append(gen.mutate(rng, projs[-1]))
                pi = rng.randrange(len(projs)) if rng.random() < .4 else 0
                s = {'op': 'run', 'p': pi, 'o': opts if rng.random() < .85 else dict(gen.new_options(rng), root=opts['root']), 'faults': []}
                x = rng.random()
                if x < .8:
                    e = rng.choice(outs)
                    s['faults'] = [pick_fault(rng, e, ['kill'])]
                elif x < .88: s['faults'] = [f for f in [pick_fault(rng, rng.choice(outs), ['err'])] if f]
                elif x < .94: s['disk'] = rng.randrange(total + 1)
                else: s['alloc'] = [rng.randrange(outs[0].allocs, max(outs[0].allocs + 1, g.events[-1].allocs)), -1]
                steps.append(s)
                if rng.random() < .6: steps.append({'op': 'powerloss', 'seed': rng.randrange(10 ** 9), 'prob': rng.choice([.3, .7, 1])})
            steps.append({'op': 'run', 'p': 0, 'o': opts})
            yield {'projs': projs, 'steps': steps, 'stamp': rng.randrange(10 ** 6)}

    def after(self, w, case, i, st, before, res, after):
        if any(e.applied for e in res.events): w._fired = True
        if i != len(case['steps']) - 1: return None
        g = self.golden(w, case, st)
        if bad_input(g): return None
        if not g.ok(): return viol('undisturbed-run-fails', 'run into an empty prefix fails', w, g)
        if not res.ok(): return viol('rerun-fails', 'undisturbed rerun after an interruption fails', w, res)
        d = diff_files(g.files, files_of(after))
        if d: return viol('rerun-does-not-converge', d, w, res)


class C03(Hist):
    id = 'C03'
    quick_cap = 90
    level = 'exploration'
    rule = 'case = history of 2-6 runs with different headers, configs, layouts, size limits and root modules into one prefix, with edits, corruption, additions and deletions between them; every run is compared with a run into an empty prefix; non-trivial: the prefix was not empty'
    quick, thorough = 260, 8000

    def cases(self, rng, w):
        for _ in range(4):
            proj = gen.new_project(rng)
            projs = [proj]; steps = []
            opts = gen.new_options(rng)
            if rng.random() < .2: proj = gen.pad(rng, proj, opts, w); projs = [proj]
            if rng.random() < .4:   # many edits of the output of one project
                steps.append({'op': 'run', 'p': 0, 'o': opts})
                for k in range(rng.randrange(3, 9)): steps += [{'op': 'tamper', 'seed': rng.randrange(10 ** 9), 'n': rng.randrange(1, 9)}, {'op': 'run', 'p': 0, 'o': opts}]
                yield {'projs': projs, 'steps': steps, 'stamp': rng.randrange(10 ** 6)}
                continue
            for k in range(rng.randrange(2, 6)):
                x = rng.random()
                if x < .4: projs.append(gen.mutate(rng, projs[-1]))
                elif x < .5: projs.append(gen.new_project(rng))
                if rng.random() < .45:
                    o = gen.new_options(rng)
                    if rng.random() < .6: o['root'] = opts['root']
                    opts = o
                s = {'op': 'run', 'p': rng.choice([len(projs) - 1, len(projs) - 1, rng.randrange(len(projs))]), 'o': opts}
                if rng.random() < .2:
                    s['faults'] = [{'from': 0, 'cls': 'OUT', 'ops': 'read,pread,readv', 'action': 'short', 'p': rng.choice([60, 200, 512, 4096])}]
                steps.append(s)
                if rng.random() < .6: steps.append({'op': 'tamper', 'seed': rng.randrange(10 ** 9), 'n': rng.randrange(1, 6)})
            if steps[-1]['op'] != 'run': steps.append({'op': 'run', 'p': len(projs) - 1, 'o': opts})
            yield {'projs': projs, 'steps': steps, 'stamp': rng.randrange(10 ** 6)}

    def after(self, w, case, i, st, before, res, after):
        if not before: return None
        g = self.golden(w, case, st)
        if not g.ok(): w.probes['golden_failed'] += 1; return None
        if not res.ok(): return viol('fails-because-of-leftovers', 'run over an existing directory fails, into an empty one it succeeds', w, res)
        d = diff_files(g.files, files_of(after))
        if d: return viol('depends-on-leftovers', d, w, res)
        for k, x in before.items():
            if k in g.files: continue
            if k not in after: return viol('foreign-removed', 'file %s not belonging to this run was removed' % k, w, res)
            if x[0] == 'f' and (after[k][0] != 'f' or after[k][1] != x[1] or after[k][3] != x[3]): return viol('foreign-modified', 'file %s not belonging to this run was modified' % k, w, res)


class C04(Hist):
    id = 'C04'
    level = 'exploration'
    rule = 'case = run(s), edits of headers/config/options or of the outputs, crashes, then a run whose reads of old outputs are short or interrupted; non-trivial: at least one source was already up to date'
    quick, thorough = 260, 8000

    def cases(self, rng, w):
        for _ in range(6):
            proj = gen.new_project(rng, size=rng.choice([2, 3, 4, 5, 6]))
            opts = gen.new_options(rng, layout=rng.choice(['hier', 'hier', 'flat']))
            if rng.random() < .3: proj = gen.pad(rng, proj, opts, w)
            g = w.golden(proj, opts)
            projs = [proj]; steps = [{'op': 'run', 'p': 0, 'o': opts}]
            for _ in range(rng.choice([1, 1, 2, 3])):
                x = rng.random()
                if x < .35: projs.append(gen.mutate(rng, projs[-1]))
                elif x < .55: steps.append({'op': 'tamper', 'seed': rng.randrange(10 ** 9), 'n': rng.randrange(1, 3)})
                elif x < .68:
                    outs = [e for e in g.events if e.cls == 'OUT']
                    steps.append({'op': 'run', 'p': len(projs) - 1, 'o': opts, 'faults': [pick_fault(rng, rng.choice(outs), ['kill'])]})
                    if rng.random() < .5: steps.append({'op': 'powerloss', 'seed': rng.randrange(10 ** 9)})
                elif x < .76: opts = dict(opts, max=rng.choice([1, 300, 1500, 16384]))
                s = {'op': 'run', 'p': len(projs) - 1, 'o': opts, 'faults': []}
                y = rng.random()
                if y < .25: s['faults'] = [{'from': 0, 'cls': 'OUT', 'ops': 'read,pread,readv', 'action': 'short', 'p': rng.choice([63, 200, 512, 4096, 8190])}]
                elif y < .5:
                    rd = [e for e in g.events if e.cls == 'OUT']
                    base = rd[0].idx if rd else 0
                    s['faults'] = [{'at': base + rng.randrange(0, 12 + len(rd)), 'action': 'errno', 'p': 4} for _ in range(3)]
                    s['reads_only'] = True
                steps.append(s)
            yield {'projs': projs, 'steps': steps, 'stamp': rng.randrange(10 ** 6)}

    def sim_step(self, w, case, st, **kw):
        if st.get('reads_only'):   # resolve: interrupt the reads nearest to the chosen places (needs the actual event sequence)
            saved = read_tree(w.out)
            hs = w.lasthash.copy()
            dry = Hist.sim_step(self, w, case, dict(st, faults=[]))
            w.lasthash = hs
            rds = [e.idx for e in dry.events if e.cls == 'OUT' and e.op in ('read', 'pread', 'readv')]
            restore(w.out, saved)
            fs = sorted({min(rds, key=lambda r: (abs(r - f['at']), r)) for f in st['faults']}) if rds else []
            st = dict(st, faults=[{'at': a + k, 'action': 'errno', 'p': 4} for k, a in enumerate(fs)])
        return Hist.sim_step(self, w, case, st, **kw)

    def after(self, w, case, i, st, before, res, after):
        if res.sim_killed() and any(e.applied.startswith(('kill', 'torn')) for e in res.events): return None
        g = self.golden(w, case, st)
        if not g.ok(): return None
        if not res.ok(): return viol('regeneration-fails', 'regeneration fails', w, res)
        lists = own_lists(st['o'])
        for k, want in g.files.items():
            if k in lists: continue
            b, a = before.get(k), after.get(k)
            if a is None or a[0] != 'f' or a[1] != want: return viol('stale-source', 'source %s does not have the new content' % k, w, res)
            if b and b[0] == 'f' and b[1] == want:
                w.probes['up_to_date'] += 1
                if (b[2], b[3]) != (a[2], a[3]): return viol('unchanged-source-touched', 'source %s already had its final content but was %s' % (k, 'replaced' if b[2] != a[2] else 'rewritten'), w, res)
            elif b: w.probes['rewritten'] += 1
            else: w.probes['created'] += 1


def restore(d, tree):
    """put a directory back to a snapshot (content, inode identity not preserved for changed files, mtimes preserved)"""
    now = read_tree(d)
    for k in sorted(now, reverse=True):
        if k not in tree or tree[k][0] != now[k][0]:
            p = d + '/' + k
            if now[k][0] == 'd': shutil.rmtree(p, ignore_errors=True)
            elif os.path.lexists(p): os.unlink(p)
    for k in sorted(tree):
        p = d + '/' + k; t = tree[k]
        if t[0] == 'd': os.makedirs(p, exist_ok=True)
        elif t[0] == 'l':
            if not os.path.lexists(p): os.symlink(t[1], p)
        else:
            if k not in now or now[k][1] != t[1]: put(p, t[1])
            os.utime(p, ns=(t[3], t[3]))


class C05(Hist):
    id = 'C05'
    rule = 'case = project with configuration x fault plan on reads/opens of configuration and headers (error at any offset after short reads, transient or persistent, configuration is a directory); non-trivial: a fault fired'
    quick, thorough = 260, 8000

    def cases(self, rng, w):
        proj = gen.new_project(rng)
        while not proj.get('cfg'): proj = gen.new_project(rng)
        opts = gen.new_options(rng)
        g = w.golden(proj, opts)
        if not g.ok(): return
        cfg = [e for e in g.events if e.cls == 'CFG']; inn = [e for e in g.events if e.cls == 'IN']
        rd = [e for e in cfg if e.op == 'read']
        size = len(gen.render_cfg(proj))
        base = {'projs': [proj], 'steps': [{'op': 'run', 'p': 0, 'o': opts}], 'stamp': 1}

        def mk(fs, **kw):
            c = copy.deepcopy(base); c['steps'][0]['faults'] = fs; c['steps'][0].update(kw); return c
        yield mk([], cfgdir=True)
        for _ in range(20):
            x = rng.random()
            if x < .45 and rd:   # error somewhere inside the configuration file
                e = rng.choice(rd)
                k = rng.randrange(0, 4); fs = []
                for j in range(k): fs.append({'at': e.idx + j, 'op': 'read', 'action': 'short', 'p': rng.randrange(1, max(2, min(size, 8191)))})
                fs.append({'at': e.idx + k, 'op': 'read', 'action': 'errno', 'p': rng.choice(world.READ_E)})
                yield mk(fs)
            elif x < .55 and rd:
                yield mk([{'from': rd[0].idx, 'cls': 'CFG', 'ops': 'read', 'action': 'short', 'p': rng.choice([1, 2, 17, 100, 4096])}] + ([{'at': rd[0].idx + rng.randrange(1, 30), 'action': 'errno', 'p': rng.choice([4, 5])}] if rng.random() < .5 else []))
            elif x < .65 and cfg:
                f = pick_fault(rng, rng.choice(cfg), ['err', 'eintr', 'short'])
                if f: yield mk([f])
            elif x < .9 and inn:
                f = pick_fault(rng, rng.choice(inn), ['err', 'err', 'eintr', 'short'])
                if f: yield mk([f])
            elif x < .95:
                yield mk([{'from': rng.choice(inn).idx, 'cls': rng.choice(['IN', 'CFG']), 'ops': 'openat,open,read,pread,mmap', 'action': 'errno', 'p': rng.choice([24, 23, 5, 13])}])
            else:
                lo = cfg[0].allocs if cfg else 0
                yield mk([], alloc=[rng.randrange(lo, lo + 200), 1])

    def sim_step(self, w, case, st, **kw):
        if st.get('cfgdir'):
            proj = case['projs'][st['p']]; w.install(proj); w._inst = None
            os.unlink(w.cfg); os.mkdir(w.cfg)
            return w.sim([{'argv': w.argv(proj, st['o'])}])
        return Hist.sim_step(self, w, case, st, **kw)

    def run(self, case, w):
        w.install(case['projs'][0]); self._snap = w.inputs_snapshot()
        return Hist.run(self, case, w)

    def after(self, w, case, i, st, before, res, after):
        w.nontrivial = any(e.applied for e in res.events) or bool(st.get('cfgdir')) or bool(st.get('alloc'))
        if not st.get('cfgdir'):
            s = w.inputs_snapshot()
            if s != self._snap: return viol('inputs-modified', 'input files were modified: %s' % [k for k in set(s) | set(self._snap) if s.get(k) != self._snap.get(k)], w, res)
        if not res.ok(): w.probes['loud'] += 1; return None
        w.probes['harmless'] += 1
        g = self.golden(w, case, st)
        d = diff_files(g.files, files_of(after))
        if d: return viol('success-on-partial-input', 'exit status 0 although an input was not read completely, and: ' + d, w, res)
        if st.get('cfgdir'): return viol('success-on-partial-input', 'exit status 0 although the configuration file cannot be read', w, res)


class C06(Hist):
    id = 'C06'
    quick_cap = 90
    level = 'exploration'
    rule = 'case = project x options x (heap layout seed, fill of fresh/freed memory and stack, clock, pid, host name, number of processors, memory, terminal, random source, environment incl. variables nobody set, umask, location, inode order and time stamps of the headers); non-trivial: every case (all differ from the reference layout); distinct by project+layout'
    quick, thorough = 600, 20000

    def cases(self, rng, w):
        proj = gen.new_project(rng, size=rng.choice([2, 3, 4, 5, 6, 8]), stl=rng.random() < .1, mix=.45); opts = gen.new_options(rng)
        if rng.random() < .5: opts['abs'] = True
        for _ in range(6):
            st = {'op': 'run', 'p': 0, 'o': opts, 'env': {'VSIM_SEED': str(rng.randrange(1, 10 ** 9))}, 'rand': rng.randrange(10 ** 6)}
            e = st['env']
            if rng.random() < .8: e['VSIM_FILL'] = str(rng.choice([0, 255, 1, 165, rng.randrange(256)]))
            if rng.random() < .7: e['VSIM_TIME'] = str(rng.choice([0, 10 ** 18, 4 * 10 ** 18, rng.randrange(10 ** 18)])); e['VSIM_TICK'] = str(rng.choice([0, 1, 10 ** 6, 10 ** 12]))
            if rng.random() < .7: e['VSIM_PID'] = str(rng.randrange(2, 4000000))
            if rng.random() < .7: e['VSIM_RAND'] = str(rng.randrange(10 ** 9))
            if rng.random() < .6: e['VSIM_ODD'] = str(rng.randrange(1, 10 ** 9))
            if rng.random() < .4: e['LC_ALL'] = rng.choice(['C', 'C.UTF-8', 'POSIX', 'de_DE.UTF-8', None, 'tr_TR.UTF-8'])
            if rng.random() < .3: e['TZ'] = rng.choice(['UTC', 'Asia/Tokyo', 'America/Los_Angeles'])
            if rng.random() < .3: e['PADDING'] = 'x' * rng.randrange(1, 5000)
            if rng.random() < .3: e['COLUMNS'] = str(rng.randrange(10, 300))
            if rng.random() < .2: e['HOME'] = rng.choice(['/', '/nonexistent', None])
            if rng.random() < .2: e['USER'] = rng.choice(['root', 'nobody'])
            if rng.random() < .25: st['replant'] = rng.randrange(1, 10 ** 9)
            if not opts.get('abs') and rng.random() < .3: st['place'] = rng.choice(['zz', 'a b/c', 'deep/er/th/an', 'x.hpp', '~'])
            if rng.random() < .2: st['umask'] = rng.choice([0, 0o77, 0o27])
            if opts.get('abs') and rng.random() < .6: st['cwd'] = rng.choice(['home', 'cfg', 'in', 'out', '/'])
            if rng.random() < .2: e.update(rng.choice([{'TERM': 'xterm'}, {'TERM': 'dumb', 'NO_COLOR': '1'}, {'LANG': 'C.UTF-8'}, {'SOURCE_DATE_EPOCH': '1'}, {'CPATH': ''}, {'TMPDIR': '/nonexistent'}, {'LOGNAME': 'x', 'HOSTNAME': 'y'}, {'PWD': '/elsewhere'}, {'DEBUG': '1', 'VERBOSE': '1'}]))
            yield {'projs': [proj], 'steps': [st], 'stamp': 1}

    def after(self, w, case, i, st, before, res, after):
        g = self.golden(w, case, st)
        w.lasthash.update(json.dumps(st['env']).encode())
        if res.ok() != g.ok(): return viol('status-depends-on-environment', 'exit status differs from the reference run', w, res)
        if not g.ok(): return None
        f = files_of(after)
        d = diff_files(g.files, f)
        if not d and set(f) != set(g.files): d = 'different set of files: %s' % sorted(set(f) ^ set(g.files))[:6]
        if d: return viol('output-depends-on-environment', 'same inputs and options, different output (environment %s): %s' % (st['env'], d), w, res)

    def shrink(self, case):
        e = case['steps'][0]['env']
        for k in list(e):
            c = copy.deepcopy(case); c['steps'][0]['env'].pop(k); yield c
        for k in ('replant', 'place', 'umask', 'cwd'):
            if k in case['steps'][0]: c = copy.deepcopy(case); c['steps'][0].pop(k); yield c
        yield from Hist.shrink(self, case)


SPELL = ['out', 'out/', './out', 'out/../out', 'out//', 'lnk', 'dlnk/out', 'o ut', 'o  ut x', "o'ut", 'o"ut', '$(touch pwned)', '`touch pwned2`', 'a;touch pwned3', 'o&touch pwned4&', 'o|cat', 'o>redir', '*', 'o?t', '-dash', '~', 'ünï', 'o\\ut', 'a b/c d', '$HOME', 'o#ut', 'o(ut)', 'o{a,b}t', '!x', 'o\tt', 'deep/er/out', '%s%n', 'out.d', '..out', 'o=ut']


class C07(Prop):
    id = 'C07'
    components = COMP
    assumptions = ASSUME + ['the prefix directory exists, as documented']
    rule = 'case = project (header names with punctuation, blanks, parent references) x prefix spelling (relative, symlink, blanks, quotes, shell metacharacters) x initial contents x fault plan; non-trivial: a fault fired or the spelling is not a plain absolute path'
    quick, thorough = 200, 6000

    def cases(self, rng, w):
        for _ in range(3):
            proj = gen.new_project(rng, size=rng.choice([1, 2, 3, 4]), stl=False); opts = gen.new_options(rng)
            hostile(rng, proj)
            sp = rng.choice(SPELL)
            case = {'proj': proj, 'o': opts, 'sp': sp, 'abs': rng.random() < .5 and not sp.startswith(('./', '-')), 'pre': rng.randrange(10 ** 9) if rng.random() < .6 else None, 'warm': rng.randrange(10 ** 9) if rng.random() < .45 else None, 'faults': [], 'disk': None}
            if case['warm'] is not None and rng.random() < .6: case['wp'] = gen.mutate(rng, proj); case['wo'] = dict(opts) if rng.random() < .6 else dict(gen.new_options(rng), root=opts['root'])
            yield case
            g = self.execute(w, case)
            if g is None: continue
            evs = [e for e in g.events if e.cls in ('OUT', 'PROC', 'EXT', 'STD') and e.idx > 0]
            for _ in range(4):
                c = copy.deepcopy(case)
                if rng.random() < .15: c['disk'] = rng.randrange(4000)
                else: c['faults'] = [f for f in [pick_fault(rng, e, ['err', 'err', 'kill', 'short', 'signal']) for e in rng.sample(evs, min(len(evs), rng.choice([1, 1, 2])))] if f]
                yield c

    def layout(self, w, case):
        sp = case['sp']; base = w.root + '/area'
        if os.path.isdir(base): shutil.rmtree(base)
        os.makedirs(base)
        put(base + '/sentinel.txt', b'keep me'); put(base + '/o', b'a file named o') if sp.startswith('o') and rng_free(sp) else None
        put(base + '/other/out/x.cpp', b'not yours'); put(base + '/victim/a/x.cpp', b'not yours'); put(base + '/m.cpp', b'not yours either')
        real = None
        if sp == 'lnk': real = base + '/real_dir'; os.makedirs(real); os.symlink('real_dir', base + '/lnk')
        elif sp == 'dlnk/out': real = base + '/real2/out'; os.makedirs(real); os.symlink('real2', base + '/dlnk')
        elif sp in ('out/../out',): real = base + '/out'; os.makedirs(real)
        else: real = os.path.normpath(base + '/' + sp); os.makedirs(real, exist_ok=True)
        prefix = base + '/' + sp if case['abs'] else sp
        return base, real, prefix

    def args(self, w, proj, o, prefix):
        argv = w.argv(proj, o, prefix=None)
        i = argv.index('--prefix'); argv[i:i + 2] = ['--prefix=' + prefix]
        return [os.path.join(w.root, a) if a.startswith('in/') else ('-I' + w.root + '/in') if a == '-Iin' else a for a in argv]

    def execute(self, w, case, undisturbed=False):
        proj = case['proj']
        w.install(proj)
        base, real, prefix = self.layout(w, case)
        o, w.out = w.out, real
        try:
            argv = self.args(w, proj, case['o'], prefix)
            if case['pre'] is not None and not undisturbed:
                r = random.Random(case['pre'])
                tamper(r, real, set(), 6)
            cl = [('OUT', real), ('IN', w.inp), ('CFG', w.cfgd)]
            if case.get('warm') is not None and not undisturbed:
                a = argv
                if case.get('wp'):
                    w.install(case['wp'])
                    a = self.args(w, case['wp'], case['wo'], prefix)
                w.sim([{'argv': a, 'cwd': base}], classes=cl)  # an earlier run, whose files are then edited
                if case.get('wp'): w.install(proj)
                r = random.Random(case['warm']); tamper(r, real, set(k for k, x in read_tree(real).items() if x[0] == 'f'), r.choice([0, 2, 4]))
            self.before = self.snap(w); self.real = real; self.base = base
            res = w.sim([{'argv': argv, 'cwd': base}], faults=() if undisturbed else case['faults'], disk={'OUT': case['disk']} if case['disk'] is not None and not undisturbed else None, classes=cl)
            self.after_ = self.snap(w)
            return res
        finally: w.out = o

    def snap(self, w): return {k: v for k, v in read_tree(w.root).items() if not k.startswith('sim/') and k != 'sim' and not k.startswith('out/')}

    def run(self, case, w):
        hs = w.lasthash.copy()
        g = self.execute(w, case, undisturbed=True)
        w.lasthash = hs
        rel = os.path.relpath(self.real, w.root) + '/'
        v = self.judge(w, case, g, None)
        if v: return v
        allowed = {k[len(rel):] for k, x in self.after_.items() if k.startswith(rel) and x[0] == 'f'} if g.ok() else None
        res = self.execute(w, case)
        w.probes['ok' if res.ok() else 'failed'] += 1
        w.nontrivial = any(e.applied for e in res.events) or case['sp'] != 'out'
        return self.judge(w, case, res, allowed)

    def judge(self, w, case, res, allowed):
        rel = os.path.relpath(self.real, w.root) + '/'
        b, a = self.before, self.after_
        for e in res.events:
            if e.cls == 'EXT' and e.mut and e.ret >= 0: return viol('outside-prefix', 'operation outside the prefix: ' + e.brief(w.root), w, res)
            if e.cls2 == 'EXT' and e.ret >= 0: return viol('outside-prefix', 'operation outside the prefix: ' + e.brief(w.root), w, res)
            if e.cls in ('IN', 'CFG') and e.mut and e.ret >= 0: return viol('input-modified', 'operation on an input: ' + e.brief(w.root), w, res)
            if e.op == 'exec' and e.path.startswith(w.root): return viol('executes-user-file', e.brief(w.root), w, res)
            if e.cls == 'OUT' and e.ret >= 0 and e.op in ('unlink', 'rmdir', 'rename') and os.path.relpath(os.path.join(os.path.realpath(os.path.dirname(e.path)), os.path.basename(e.path)), w.root) in b: return viol('deleted', 'removed something that was there before the run: ' + e.brief(w.root), w, res)
        for k, x in b.items():
            if k not in a: return viol('deleted', 'removed: ' + k, w, res)
            if not k.startswith(rel) and x[0] == 'f' and (a[k][0] != 'f' or a[k][1:] != x[1:]): return viol('outside-prefix', 'modified: ' + k, w, res)
        for k, x in a.items():
            if k in b: continue
            if not k.startswith(rel): return viol('outside-prefix', 'created: ' + k, w, res)
            r = k[len(rel):]
            if allowed is not None:
                if x[0] == 'f' and r not in allowed: return viol('unexpected-file', 'created inside the prefix, but not an output file: ' + r, w, res)
                if x[0] == 'd' and not any(f.startswith(r + '/') for f in allowed): return viol('unexpected-dir', 'created inside the prefix, but not leading to an output file: ' + r, w, res)
            elif x[0] == 'd' and not any(k2.startswith(k + '/') for k2 in a) and res.ok(): return viol('unexpected-dir', 'empty directory created: ' + r, w, res)
        if allowed is not None:
            for k, x in b.items():
                if k.startswith(rel) and x[0] == 'f' and k[len(rel):] not in allowed and (a[k][0] != 'f' or a[k][1] != x[1]): return viol('foreign-modified', 'modified: ' + k, w, res)
        return None

    def shrink(self, case):
        for i in range(len(case['faults'])):
            c = copy.deepcopy(case); c['faults'].pop(i); yield c
        if case['pre'] is not None: c = copy.deepcopy(case); c['pre'] = None; yield c
        if case.get('warm') is not None: c = copy.deepcopy(case); c['warm'] = None; yield c
        if case.get('wp'): c = copy.deepcopy(case); c.pop('wp'); c.pop('wo'); yield c
        if case['disk'] is not None: c = copy.deepcopy(case); c['disk'] = None; yield c
        for i in range(len(case['o']['flags'])):
            c = copy.deepcopy(case); c['o']['flags'].pop(i); yield c
        for q in gen.shrink_project(case['proj']):
            c = copy.deepcopy(case); c['proj'] = q; yield c

    def describe(self, case): return json.dumps({'headers': [h['path'] for h in case['proj']['headers']], 'prefix': case['sp'], 'abs': case['abs'], 'pre': case['pre'], 'warm': case.get('warm'), 'o': case['o'], 'faults': case['faults'], 'disk': case['disk']})


def rng_free(sp): return sp.startswith('o ') or sp.startswith('o&') or sp.startswith('o>')


def hostile(rng, proj):
    names = ['my header.hpp', 'a;touch x.hpp', '$(touch y).h', 'we ird/na me.hpp', "it's.hpp", 'a&b.hpp', '-rf.hpp', '.hid/den.hpp', 'a/../b/up.hpp', '../sib.hpp', 'x y/../../in/tricky.hpp', '#hash.hpp', 'tab\there.hpp', 'pct%s.hpp', 'dots...hpp', 'UP/../x.hpp', './cur.hpp', 'a//dbl.hpp', 'back\\slash.hpp', 'star*.hpp', '~tilde.hpp', 'm.hpp', 'm.sources.hpp', 'm.modules.h', 'pkg.hpp', 'demo.hpp', 'noext', '__.hpp', '_.h']
    used = {h['path'] for h in proj['headers']}
    for h in proj['headers']:
        if rng.random() < .5:
            n = rng.choice(names)
            if n not in used: used.add(n); h['path'] = n


class C08(Hist):
    id = 'C08'
    rule = 'case = earlier history, then a run observed at every mutating file operation (each observation = a possible kill point); evaluations count runs, probe "observed_states" counts the observed instants'
    quick, thorough = 330, 7000

    def cases(self, rng, w):
        for _ in range(5):
            proj = gen.new_project(rng); opts = gen.new_options(rng, layout=rng.choice(['hier', 'hier', 'flat']))
            projs = [proj]; steps = []
            if rng.random() < .75:
                projs.append(gen.mutate(rng, proj)); steps.append({'op': 'run', 'p': rng.randrange(2), 'o': opts if rng.random() < .6 else dict(gen.new_options(rng, layout=rng.choice(['hier', 'flat'])), root=opts['root'])})
                if rng.random() < .3:
                    g = w.golden(proj, opts); outs = [e for e in g.events if e.cls == 'OUT']
                    steps.append({'op': 'run', 'p': 0, 'o': opts, 'faults': [pick_fault(rng, rng.choice(outs), ['kill'])]})
            s = {'op': 'run', 'p': 0, 'o': opts, 'watch': True, 'faults': []}
            x = rng.random()
            if x < .35:
                g = w.golden(proj, opts); outs = [e for e in g.events if e.cls == 'OUT' and (e.mut or e.op == 'close')]
                f = pick_fault(rng, rng.choice(outs), ['err', 'short', 'short'])
                if f: s['faults'] = [f]
            elif x < .5: s['faults'] = [{'from': 0, 'cls': 'OUT', 'ops': 'write,writev,pwrite', 'action': 'short', 'p': rng.choice([5, 19, 100, 1000])}]
            elif x < .58: s['disk'] = rng.randrange(8000)
            steps.append(s)
            yield {'projs': projs, 'steps': steps, 'stamp': rng.randrange(10 ** 6)}

    def sim_step(self, w, case, st, **kw):
        if not st.get('watch'): return Hist.sim_step(self, w, case, st, **kw)
        g = self.golden(w, case, st)
        lst = w.out + '/' + st['o']['root'] + '.sources'
        self.viol = None
        try: before = open(lst, 'rb').read()
        except OSError: before = None
        # a list left behind by an interrupted earlier run is judged by what it names now
        final = {k: x for k, x in g.files.items() if k not in (st['o']['root'] + '.sources', st['o']['root'] + '.modules')}

        def bad(msg, at):
            if self.viol is None: self.viol = (msg, at)

        def obs(proc, idx, op, path):
            w.probes['observed_states'] += 1
            try: now = open(lst, 'rb').read()
            except OSError: now = None
            if now is not None:
                for line in now.split(b'\n')[:-1]:
                    if not os.path.isfile(os.path.join(os.fsencode(w.out), line)): bad('source list names %r, which does not exist' % line.decode(errors='replace'), '%d %s %s' % (idx, op, path)); break
            if now and now != before and g.ok():
                w.probes['list_states'] += 1
                for k, x in final.items():
                    p = w.out + '/' + k
                    try: c = open(p, 'rb').read()
                    except OSError: c = None
                    if c != x: bad('source list already rewritten, but %s %s' % (k, 'does not exist' if c is None else 'has %d of %d final bytes' % (len(c), len(x)) if x.startswith(c) else 'is not final'), '%d %s %s' % (idx, op, path)); break
        r = Hist.sim_step(self, w, case, st, sync=obs, **kw)
        obs(0, -1, 'end', '')
        return r

    def after(self, w, case, i, st, before, res, after):
        if not st.get('watch'): return None
        if self.viol: return viol('list-published-early', '%s (after event %s)' % self.viol, w, res)


class C09(Prop):
    id = 'C09'
    quick_cap = 90
    level = 'exploration'
    components = COMP
    assumptions = ASSUME + ['interleaving granularity: one file system call on the shared prefix']
    rule = 'case = 2-3 concurrent runs (identical, or different root modules in flat/single-file layout) x initial directory x seeded interleaving of their file operations; non-trivial: at least one preemption; distinct by event log hash (interleaving)'
    quick, thorough = 310, 5000

    def cases(self, rng, w):
        proj = gen.new_project(rng, size=rng.choice([1, 2, 3, 4]), stl=False)
        o = gen.new_options(rng)
        if rng.random() < .55: opts = [o] * rng.choice([2, 2, 3])
        else:
            lay = rng.choice(['flat', 'flat', 'single', 'mix'])
            opts = [dict(gen.new_options(rng, layout=rng.choice(['flat', 'single']) if lay == 'mix' else lay), root=r) for r in rng.sample(['alpha', 'beta', 'gamma', 'delta'], rng.choice([2, 2, 3]))]
        for _ in range(8):
            pre = None
            if rng.random() < .5: pre = {'p': gen.mutate(rng, proj), 'o': rng.choice(opts), 'seed': rng.randrange(10 ** 9), 'n': rng.randrange(0, 4)}
            yield {'proj': proj, 'opts': opts, 'pre': pre, 'sched': [rng.randrange(10 ** 9), rng.choice([5, 15, 30, 60, 90])], 'preempt': None}

    def run(self, case, w):
        proj = case['proj']
        gs = [w.golden(proj, o) for o in case['opts']]
        for g in gs:
            if bad_input(g): return None
            if not g.ok(): return viol('solo-run-fails', 'a run on its own fails', w, g)
        clear_dir(w.out)
        if case['pre']:
            p = case['pre']; w.install(p['p']); hs = w.lasthash.copy(); w.sim([{'argv': w.argv(p['p'], p['o'])}]); w.lasthash = hs
            tamper(random.Random(p['seed']), w.out, set(files_of(read_tree(w.out, False))), p['n'])
        w.install(proj)
        kw = {'sched': case['sched']} if case['preempt'] is None else {'preempt': case['preempt']}
        r = w.sim([{'argv': w.argv(proj, o)} for o in case['opts']], yields=['OUT'], budget=20000, **kw)
        self.last_preempts = r.preempts
        w.nontrivial = r.decisions > 0 and (bool(r.preempts) or bool(case['preempt']))
        f = files_of(read_tree(w.out))
        for i, o in enumerate(case['opts']):
            if not r.ok(i): return viol('concurrent-run-fails', 'run %d fails: %s' % (i, r.text[i][-300:]), w, r)
        for i, g in enumerate(gs):
            d = diff_files(g.files, f)
            if d: return viol('concurrent-runs-corrupt', 'after all runs ended: ' + d, w, r)

    def shrink(self, case):
        if case['preempt'] is None:
            c = copy.deepcopy(case); c['preempt'] = [list(x) for x in self.last_preempts] if hasattr(self, 'last_preempts') else []; yield c
        else:
            n = len(case['preempt'])
            k = n // 2
            while k >= 1:
                for i in range(0, n, k):
                    c = copy.deepcopy(case); del c['preempt'][i:i + k]; yield c
                k //= 2
        if case['pre']: c = copy.deepcopy(case); c['pre'] = None; yield c
        if len(case['opts']) > 2: c = copy.deepcopy(case); c['opts'].pop(); yield c
        for q in gen.shrink_project(case['proj']):
            c = copy.deepcopy(case); c['proj'] = q; yield c

    def describe(self, case): return json.dumps({'headers': [h['path'] for h in case['proj']['headers']], 'runs': case['opts'], 'sched': case['sched'], 'pre': bool(case['pre'])})


class C10(Hist):
    id = 'C10'
    rule = 'case = project x options (including size limits 0, negative, 1) x persistent failure of an output operation class or of the configuration file from some point on, or no fault; non-trivial: a fault fired or an extreme size limit'
    quick, thorough = 330, 7000

    def cases(self, rng, w):
        proj = gen.new_project(rng); opts = gen.new_options(rng)
        case = {'projs': [proj], 'steps': [{'op': 'run', 'p': 0, 'o': opts}], 'stamp': 1}
        ext = copy.deepcopy(case); ext['steps'][0]['o'] = dict(opts, max=rng.choice([0, 0, 1, 2, -1, 2147483647])); ext['extreme'] = True
        yield ext
        g = w.golden(proj, opts)
        outs = [e for e in g.events if e.cls == 'OUT' and (e.mut or e.op == 'close')]
        total = sum(e.size for e in outs if e.op in world.OUT_OPS_W)
        wr = [e for e in outs if e.op in world.OUT_OPS_W]; op = [e for e in outs if e.wopen]; mk = [e for e in outs if e.op == 'mkdir' and e.ret == 0]
        for _ in range(16):
            c = copy.deepcopy(case); s = c['steps'][0]
            if rng.random() < .3: s['o'] = opts
            x = rng.random()
            if x < .3 and wr: e = rng.choice(wr); s['faults'] = [{'from': e.idx, 'cls': 'OUT', 'ops': 'write,writev,pwrite', 'action': 'errno', 'p': rng.choice(world.WRITE_E)}]; s['must'] = True
            elif x < .55 and op: e = rng.choice(op); s['faults'] = [{'from': e.idx, 'cls': 'OUT', 'ops': 'openatw,openw,creat,openat2w', 'action': 'errno', 'p': rng.choice(world.OPEN_E)}]; s['must'] = True
            elif x < .68 and mk: e = rng.choice(mk); s['faults'] = [{'from': e.idx, 'cls': 'OUT', 'ops': 'mkdir', 'action': 'errno', 'p': rng.choice(world.MKDIR_E)}]; s['must'] = True
            elif x < .8 and total > 1: s['disk'] = rng.randrange(total); s['must'] = True
            elif x < .87 and proj.get('cfg'):
                cf = [e for e in g.events if e.cls == 'CFG' and e.op in ('openat', 'open', 'read') and not (e.op == 'read' and e.ret == 0)]
                if not cf: continue
                e = rng.choice(cf); s['faults'] = [{'from': e.idx, 'cls': 'CFG', 'ops': 'openat,open,read', 'action': 'errno', 'p': rng.choice([5, 13] if e.op != 'read' else [5])}]; s['must'] = True
            elif x < .94:
                last = [e for e in outs if e.op == 'close' and any(q.op in world.OUT_OPS_W and q.path == e.path for q in outs)]
                if not last: continue
                e = rng.choice(last); s['faults'] = [{'from': e.idx, 'cls': 'OUT', 'ops': 'close', 'action': 'errno', 'p': rng.choice([5, 28, 122])}]; s['must'] = True
            else: s['faults'] = [{'from': 0, 'cls': rng.choice(['STD', 'OUT', 'PROC']), 'ops': 'write,writev,fork,exec', 'action': 'errno', 'p': rng.choice([5, 28, 32, 11])}]
            if s['must' if 'must' in s else 'op']: yield c

    def after(self, w, case, i, st, before, res, after):
        hit = [e for e in res.events if e.applied]
        w.nontrivial = bool(hit) or bool(case.get('extreme'))
        g = None
        if not case.get('extreme') or st['o']['max'] not in (0,): g = self.golden(w, case, st)
        if res.abort in ('budget', 'cpu', 'stall'): return viol('does-not-end', 'run does not end (%s limit)' % res.abort, w, res)
        if case.get('extreme'):
            if bad_input(res): return None
            if not res.ok(): return viol('extreme-limit-fails', 'undisturbed run with file size limit %s fails' % st['o']['max'], w, res)
            return None
        if not hit:
            return None
        if len(res.events) > 4 * len(g.events) + 300: return viol('keeps-retrying', '%d file operations, undisturbed run needs %d' % (len(res.events), len(g.events)), w, res)
        if not st.get('must'): return None
        hard = [e for e in hit if e.cls in ('OUT', 'CFG') and e.applied != 'disk:part']
        if not hard: return None
        w.probes['hard_failures'] += 1
        if res.ok():
            # a run that managed to produce everything without the failing operation is fine
            if not diff_files(g.files, files_of(after)) and all(e.op != 'close' and e.cls != 'CFG' for e in hard): return None
            return viol('silent-failure', 'exit status 0 although %s failed' % hard[0].brief(w.root), w, res)
        text = res.text[0]
        names = set()
        for e in hard:
            if e.cls == 'CFG': names.add('c.cfg'); continue
            rel = os.path.relpath(e.path, w.out); names.add(e.path); names.add(rel if rel != '.' else w.out)
            if e.op == 'mkdir': names.add(os.path.basename(e.path))
        if not any(n in text for n in names): return viol('unnamed-failure', 'failure message names none of %s' % sorted(x.replace(w.root, '@') for x in names)[:4], w, res)


# ------------------------------------------------------------------------------------------------ C11
FUNC = re.compile(r'^void (\w+)\(std::function< ?pybind11::module ?&\(std::string const ?&namespace_\) ?> ?&M\)\s*\n\{\n(.*?)^\}\n', re.M | re.S)
DECL = re.compile(r'^void (\w+)\(std::function< ?pybind11::module ?&\(std::string const ?&namespace_\) ?> ?&M\);$', re.M)
CALL = re.compile(r'^\t(\w+)\(M\);$', re.M)
PAIR = re.compile(r'\{"([^"]*)", "([^"]*)"\}')
USED = re.compile(r'\bM\("([^"]*)"\)')


class Broken(Exception):
    pass


def parse_output(files, opts):
    """structure of an output directory; raises Broken if its parts disagree"""
    root = opts['root']
    rf = root + '.cpp'
    if rf not in files: raise Broken('no root module file')
    rt = files[rf].decode()
    if opts['layout'] == 'single':
        m = re.search(r'\n// Source list file: [^\n]*\n((?:// [^\n]*\n)*)\n// Modules list file: [^\n]*\n// ([^\n]*)\n', rt)
        if not m: raise Broken('no lists in single file')
        sources = [l[3:] for l in m.group(1).splitlines()]
        modules = m.group(2).split()
        head = rt[:m.start()]
        texts = {}
        parts = re.split(r'^// File: ([^\n]*)\n', head, flags=re.M)
        rootpart = parts[0] if len(parts) == 1 else parts[-1][parts[-1].rfind('#include <map>\n#include <algorithm>'):]
        if len(parts) > 1:
            parts[-1] = parts[-1][:parts[-1].rfind('#include <map>\n#include <algorithm>')]
        for i in range(1, len(parts), 2):
            if parts[i] in texts: raise Broken('file %s appears twice in the single file' % parts[i])
            texts[parts[i]] = parts[i + 1]
    else:
        if root + '.sources' not in files: raise Broken('no source list')
        if root + '.modules' not in files: raise Broken('no module list')
        s = files[root + '.sources'].decode()
        if s and not s.endswith('\n'): raise Broken('source list does not end with a newline')
        sources = s.splitlines()
        modules = files[root + '.modules'].decode().split()
        rootpart = rt
        texts = {}
        for f in sources:
            if f not in files: raise Broken('listed source %s does not exist' % f)
            if f != rf: texts[f] = files[f].decode()
    if len(set(sources)) != len(sources): raise Broken('source list names a file twice: %s' % [x for x in sources if sources.count(x) > 1][0])
    if rf not in sources: raise Broken('source list does not name the root module')
    if set(texts) != set(sources) - {rf}: raise Broken('source list and sources disagree: %s' % sorted(set(texts) ^ (set(sources) - {rf}))[:3])
    decls = DECL.findall(rootpart); calls = CALL.findall(rootpart)
    if len(set(decls)) != len(decls): raise Broken('root module declares %s twice' % [x for x in decls if decls.count(x) > 1][0])
    if len(set(calls)) != len(calls): raise Broken('root module calls %s twice' % [x for x in calls if calls.count(x) > 1][0])
    if set(decls) != set(calls): raise Broken('declared and called binding functions differ: %s' % sorted(set(decls) ^ set(calls))[:4])
    defs = {}
    for f in sources:
        if f == rf: continue
        d = FUNC.findall(texts[f])
        if len(d) != 1: raise Broken('source %s defines %d binding functions' % (f, len(d)))
        n, b = d[0]
        if n in defs: raise Broken('binding function %s is defined in %s and %s' % (n, defs[n][0], f))
        t = texts[f]; i = t.index('void ' + n + '('); j = t.rfind('#endif\n', 0, i)
        defs[n] = (f, b, t[j + 7:i] if j >= 0 else t[:i])
        for x in set(re.findall(r'\bPyCallBack_\w+', b)):
            if len(re.findall(r'^struct %s\b' % x, defs[n][2], re.M)) != 1: raise Broken('%s needs %s, which is not defined there' % (f, x))
    if set(defs) != set(calls): raise Broken('defined and called binding functions differ: %s' % sorted(set(defs) ^ set(calls))[:4])
    k = rootpart.find('sub_modules {'); pairs = PAIR.findall(rootpart[k:rootpart.find('};', k)])
    created = [a + '::' + b if a else b for a, b in pairs]
    if len(set(created)) != len(created): raise Broken('sub-module created twice')
    seen = {''}
    for (a, b), c in zip(pairs, created):
        if a not in seen: raise Broken('sub-module %s created before its parent' % c)
        seen.add(c)
    if sorted(m.replace('.', '::') for m in modules) != sorted(created): raise Broken('module list %s and created sub-modules %s differ' % (modules, created))
    used = set()
    for n, (f, b, p) in defs.items(): used |= set(USED.findall(b))
    if not used <= seen: raise Broken('bindings use modules that are never created: %s' % sorted(used - seen)[:3])
    clos = set()
    for u in used:
        while u: clos.add(u); u = u.rpartition('::')[0]
    if clos != set(created): raise Broken('created sub-modules that no binding uses: %s' % sorted(set(created) - clos)[:3])
    body = ''.join(defs[c][1] for c in calls); pre = ''.join(re.sub(r'\n\s*\n+', '\n', defs[c][2]).strip() + '\n' for c in calls if defs[c][2].strip())
    body = re.sub(r'^\tstd::cout << "B\d+_\[.*?\]" << std::endl;\n', '', body, flags=re.M)
    return body, pre, calls


class C11(Hist):
    id = 'C11'
    level = 'exploration'
    rule = 'case = history of 1-4 runs with changing layout and file-size limit into one prefix; after each, structural agreement and equality of the executed binding sequence with the single-file reference; non-trivial: output split into at least two sources or history longer than one'
    quick, thorough = 500, 20000

    def cases(self, rng, w):
        for _ in range(3):
            proj = gen.new_project(rng, size=rng.choice([1, 2, 3, 4, 5, 6, 8])); projs = [proj]; steps = []
            root = rng.choice(['m', 'pkg', 'demo', 'x', 'core_io', 'm_1', 'a'])
            for _ in range(rng.choice([1, 2, 2, 3, 4])):
                if steps and rng.random() < .3: projs.append(gen.mutate(rng, projs[-1]))
                o = dict(gen.new_options(rng), root=root); o['max'] = rng.choice([1, 1, 80, 250, 500, 900, 1500, 2500, 5000, None, -1])
                steps.append({'op': 'run', 'p': len(projs) - 1, 'o': o})
            yield {'projs': projs, 'steps': steps, 'stamp': 1}

    def after(self, w, case, i, st, before, res, after):
        if not res.ok(): w.probes['failed'] += 1; return None
        o = st['o']; f = files_of(after)
        try: body, pre, calls = parse_output(f, o)
        except Broken as e: return viol('output-disagrees', str(e), w, res)
        except UnicodeDecodeError as e: return viol('output-disagrees', 'not text: %s' % e, w, res)
        w.probes['sources'] += len(calls); w.nontrivial = len(calls) > 1 or len(case['steps']) > 1
        ro = dict(o, layout='single', max=1000000000)
        g = w.golden(case['projs'][st['p']], ro)
        if not g.ok(): return None
        try: rb, rp, _ = parse_output(g.files, ro)
        except Broken as e: return viol('output-disagrees', 'single-file reference: %s' % e, w, g)
        if body != rb: return viol('split-changes-bindings', 'bindings executed by the root module differ from those of the unsplit output: ' + firstdiff(rb, body), w, res)
        if pre != rp: return viol('split-changes-support-code', 'support code differs from that of the unsplit output: ' + firstdiff(rp, pre), w, res)
        # independent count against the model of the project
        v = self.count(w, case['projs'][st['p']], body, res)
        if v: return v

    def count(self, w, proj, body, res):
        lines = (proj['cfg'] or {}).get('lines', [])
        if any(l.startswith(('-enum', '-namespace')) and l != '-namespace not::there' for l in lines): return None     # what such rules drop in consequence is not modelled
        skipped = [l.split()[1] for l in lines if l.startswith(('-class', '-function', '+binder ', '+smart_holder', '+python_builtin'))]
        whole = [l.split()[1] for l in lines if l.startswith('+binder_for_namespace')]; bound = set()
        for h in proj['headers']:
            for it in h['items']:
                q = gen.qname(it)
                if q in skipped or it['ns'] in whole or it['k'] not in ('class', 'enum', 'func') or it['name'] == 'ovl' or 'std::' in json.dumps(it): continue   # (whether library types are bindable is not modelled)
                n = len(re.findall(r'M\("%s"\)(?:, |\.def\()"%s"' % (re.escape(it['ns']), re.escape(it['name'])), body))
                want = 1 + (it['args']['d'] if it['k'] == 'func' else 0)   # one extra overload per default argument
                if n != want: return viol('entity-count', '%s %s is bound %d times instead of %d' % (it['k'], q, n, want), w, res)
                w.probes['entities'] += 1; bound.add(it['ns'])
        for l in lines:
            a = l.split()
            if a[:1] == ['+add_on_binder_for_namespace'] and a[1] in bound | set(whole):
                n = len(re.findall(r'^\t%s\(M\("%s"\)\);$' % (re.escape(a[2]), re.escape(a[1])), body, re.M)); want = 0 if a[1] in whole else 1
                if n != want and sum(x.split()[:2] == a[:2] for x in lines) == 1: return viol('entity-count', 'add-on %s of namespace %s is called %d times instead of %d' % (a[2], a[1], n, want), w, res)
                w.probes['add_ons'] += 1
        for h in proj['headers']:
            for it in h['items']:
                q = gen.qname(it)
                if it['k'] != 'class' or q in skipped or it['ns'] in whole or 'std::' in json.dumps(it): continue
                for l in lines:
                    a = l.split()
                    if a[:2] == ['+add_on_binder', q]:
                        n = len(re.findall(r'^\t+%s\(cl\);$' % re.escape(a[2]), body, re.M)); want = len({x.split()[1] for x in lines if x.startswith('+add_on_binder ') and x.split()[2] == a[2]})
                        if n != 1 and want == 1 and sum(x.split()[:2] == a[:2] for x in lines) == 1: return viol('entity-count', 'add-on %s of class %s is called %d times instead of once' % (a[2], q, n), w, res)
                        w.probes['add_ons'] += 1
        return None


def firstdiff(a, b):
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return 'at %d: %r instead of %r' % (i, b[max(0, i - 40):i + 80], a[max(0, i - 40):i + 80])


# ------------------------------------------------------------------------------------------------ C16
REG = re.compile(r'^\t+(?:\{ [^\n]*?)?pybind11::(?:class_<(?P<ca>.*)>(?: cl)?\((?P<cs>M\("[^"]*"\)|enclosing_class), "(?P<cn>[^"]*)"|enum_<(?P<ea>.*?)>\((?P<es>M\("[^"]*"\)|cl|enclosing_class), "(?P<en>[^"]*)")', re.M)


def targs(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<([{': d += 1
        if c in '>)]}': d -= 1
        if c == ',' and not d: out.append(cur.strip()); cur = ''
        else: cur += c
    return out + [cur.strip()]


def outer(t):
    """enclosing scope of a type name"""
    d = 0
    for i in range(len(t) - 1, 0, -1):
        if t[i] in '>)': d += 1
        if t[i] in '<(': d -= 1
        if not d and t[i - 1:i + 1] == '::': return t[:i - 1]
    return ''


def same(t): return re.sub(r'\b(?:class|struct|enum) ', '', t).replace(' ', '')


def registrations(body):
    for m in REG.finditer(body):
        if m.group('ca') is not None:
            a = targs(m.group('ca')); b = a[2:]
            tr = None
            if b and b[0].startswith('PyCallBack_'): tr = b.pop(0)
            yield 'class', a[0], m.group('cs'), m.group('cn'), b, a[1] if len(a) > 1 else '', tr
        else: yield 'enum', m.group('ea'), m.group('es'), m.group('en'), [], '', None


def interpret(body, custom):
    """registers what the module registers, in that order, as the interpreter does; -> (first problem, statistics)"""
    regs = list(registrations(body)); all_ = {same(r[1]) for r in regs}
    types, names, late, n = {}, set(), None, 0
    for kind, t, scope, name, bases, holder, tr in regs:
        n += 1; k = same(t)
        if k in types: return ('registered-twice', '%s %s is registered twice' % (kind, t)), n
        sc = scope
        if not scope.startswith('M('):
            o = outer(t); sc = 'in ' + same(o)
            if same(o) not in types: return ('before-enclosing-class', '%s is registered before the class it is a member of' % t), n
        if (sc, name) in names: return ('name-taken', 'the name %s is registered twice in %s' % (name, sc)), n
        for b in bases:
            if same(b) in types: continue
            if same(b) not in all_:
                if any(same(b) == same(c) or same(b).startswith(same(c) + '<') or same(b).startswith(same(c) + '::') for c in custom): continue
                return ('base-never-registered', 'base %s of %s is not registered at all' % (b, t)), n
            if scope.startswith('M('): return ('before-base', '%s is registered before its base class %s' % (t, b)), n
            late = late or ('nested-before-base', 'member class %s is registered before its base class %s' % (t, b))
        if len(set(map(same, bases))) != len(bases): return ('base-twice', '%s names a base class twice' % t), n
        types[k] = 1; names.add((sc, name))
    return late, n


class C16(Hist):
    id = 'C16'
    level = 'exploration'
    rule = 'case = history of 1-3 runs (memory layout, inode order, file-size limit and layout of the output chosen by the seed; earlier runs may be killed) into one prefix; after each successful run the binding functions are executed, in the order the root module calls them, by a model of the registry of the interpreter; non-trivial: the module registers at least one class with a base'
    quick, thorough = 400, 20000

    def cases(self, rng, w):
        for _ in range(3):
            proj = gen.new_project(rng, size=rng.choice([1, 2, 3, 4, 5, 6, 8]), stl=rng.random() < .04, mix=.6); projs = [proj]; steps = []
            root = rng.choice(['m', 'pkg', 'demo', 'x'])
            if rng.random() < .5: gen.entangle(rng, proj)
            tops = sorted({it['ns'].split('::')[0] for h in proj['headers'] for it in h['items']} - {''})
            if tops and rng.random() < .4: proj['binds'] = rng.sample(tops, rng.randrange(1, len(tops) + 1)); proj['cfg'] = None     # the others only as far as these need them
            for _ in range(rng.choice([1, 1, 2, 3])):
                if steps and rng.random() < .5: projs.append(gen.mutate(rng, projs[-1]))
                o = dict(gen.new_options(rng), root=root); o['max'] = rng.choice([1, 1, 250, 900, 2500, None])
                st = {'op': 'run', 'p': len(projs) - 1, 'o': o, 'env': {'VSIM_SEED': str(rng.randrange(1, 10 ** 9)), 'VSIM_FILL': str(rng.randrange(256))}, 'rand': rng.randrange(10 ** 6)}
                if rng.random() < .25: st['replant'] = rng.randrange(1, 10 ** 9)
                if rng.random() < .2:
                    g = w.golden(projs[-1], o); outs = [e for e in g.events if e.cls == 'OUT']
                    f = pick_fault(rng, rng.choice(outs), ['kill', 'err', 'short']) if outs else None
                    if f: st['faults'] = [f]
                steps.append(st)
            yield {'projs': projs, 'steps': steps, 'stamp': 1}

    def sim_step(self, w, case, st, **kw): return Hist.sim_step(self, w, case, st, cpu=20, **kw)

    def after(self, w, case, i, st, before, res, after):
        if res.abort == 'cpu': return viol('never-ends', 'no order is found, the run goes on for ever', w, res)
        if not res.ok(): w.probes['failed'] += 1; return None
        o = st['o']; f = files_of(after)
        try: body, pre, calls = parse_output(f, o)
        except (Broken, UnicodeDecodeError) as e: return viol('module-incomplete', str(e), w, res)
        lines = (case['projs'][st['p']]['cfg'] or {}).get('lines', [])
        custom = [l.split()[1] for l in lines if l.startswith(('+binder ', '+binder_for_namespace ', '+python_builtin', '-class', '-namespace'))]
        p, n = interpret(body, custom)
        w.probes['registrations'] += n; w.nontrivial = n > 1
        if p: return viol(p[0], 'importing the module fails: ' + p[1], w, res)
        # nothing with a registration statement may have escaped the model
        k = len(re.findall(r'^\t+(?:\{ )?pybind11::(?:class_|enum_)<', body, re.M))
        if k != n: return viol('unknown-registration', '%d registration statements, %d understood' % (k, n), w, res)
        w.probes['with_base'] += sum(bool(r[4]) for r in registrations(body))


PROPS = [C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C16]
