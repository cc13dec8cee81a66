"""Seeded exploration, gating, minimisation, replay and evidence."""
import os, sys, zlib, json, time, random, hashlib, tempfile, shutil, subprocess, traceback, multiprocessing, collections, signal
from . import build, world

VERIF = build.VERIF
ENGINE_VERSION = 1


class Prop:
    id = None
    level = 'fault_enumeration'
    rule = ''
    needs_binder = True
    threads = True       # threads inside a simulated process are scheduled, too
    quick = 100          # seeds
    thorough = 3000
    quick_cap = 60      # seconds of exploration
    thorough_cap = 5400
    components = {}
    assumptions = []

    def prepare(self, ctx): pass                 # once per check, before the workers start
    def cases(self, rng, w): return []
    def run(self, case, w): return None          # -> None | {'class','detail'}
    def shrink(self, case): return []
    def describe(self, case): return json.dumps(case)[:600]
    def probes(self): return {}


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            s = os.statvfs(d)
            if s.f_bavail * s.f_frsize > 2 << 30: return d
    return '/tmp'


class Ctx:
    pass


_ctx = None
_world = None


def _mkworld(ctx, name):
    root = os.path.join(ctx.scratch, name)
    if os.path.exists(root): shutil.rmtree(root)
    os.makedirs(root)
    w = world.World(root, ctx.simtrace, ctx.preload, ctx.binder)
    w.ctx = ctx
    return w


def exec_case(prop, case, w):
    """run one case; -> (violation, hash)"""
    w.lasthash = hashlib.sha256()
    w.dirseed = case.get('rd', 0)  # order of directory entries, order of threads: part of the case
    w.tseed = w.dirseed if prop.threads else None
    v = prop.run(case, w)
    h = w.lasthash.copy(); h.update(json.dumps([v['class']] if v else None).encode())
    return v, h.hexdigest()


def _winit(n):
    global _world
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    i = n.get()
    _world = _mkworld(_ctx, 'w%02d' % i)


def _wseed(seed):
    """one seed in a worker"""
    ctx, w, prop = _ctx, _world, _ctx.prop
    out = {'seed': seed, 'cases': 0, 'hashes': [], 'viol': None, 'err': None, 'sample': None, 'probes': {}}
    if time.time() > ctx.deadline: out['skipped'] = True; return out
    for k in ('runs', 'golden_runs', 'events', 'sim_sleep_ns', 'preempts', 'decisions'): w.stats[k] = 0
    w.stats['faults'] = {}
    w.probes = collections.Counter()
    rng = random.Random('%d/%s/%d' % (ctx.seed, prop.id, seed))
    try:
        for case in prop.cases(rng, w):
            w.nontrivial = True
            case.setdefault('rd', zlib.crc32(json.dumps(case, sort_keys=True).encode()))
            v, h = exec_case(prop, case, w)
            out['cases'] += 1
            if w.nontrivial: out['hashes'].append(h[:16])
            if out['sample'] is None or rng.random() < .1: out['sample'] = prop.describe(case)
            if v:
                v2, h2 = exec_case(prop, case, w)  # only what repeats exactly counts
                if not (v2 and v2['class'] == v['class'] and h2 == h):
                    out.setdefault('flaky', []).append('%s | again: %s (%s, %s)' % (v, v2, h[:8], h2[:8])); continue
                out['viol'] = {'case': case, 'v': v, 'hash': h}
                break
            if time.time() > ctx.deadline: break
    except Exception:
        out['err'] = traceback.format_exc()
    out['stats'] = {k: (dict(x) if isinstance(x, dict) else x) for k, x in w.stats.items()}
    out['probes'] = dict(w.probes)
    return out


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [e for e in json.load(open(p)) if e.get('property') == pid and e.get('status') == 'open']


def match_known(kf, v): return any(e.get('class') == v['class'] and (not e.get('match') or e['match'] in v['detail']) for e in kf)


def minimise(prop, case, v, w, limit_s=90, limit_n=250):
    t0 = time.time(); n = 0
    best, bv = case, v
    progress = True
    while progress and time.time() - t0 < limit_s and n < limit_n:
        progress = False
        for c in prop.shrink(best):
            if time.time() - t0 > limit_s or n >= limit_n: break
            n += 1
            try: cv, _ = exec_case(prop, c, w)
            except Exception: continue
            if cv and cv['class'] == bv['class']:
                best, bv, progress = c, cv, True
                break
    return best, bv, n


def setup_ctx(prop, seed, scratch=None):
    ctx = Ctx(); ctx.prop = prop; ctx.seed = seed
    ctx.simtrace, ctx.preload = build.tools()
    ctx.binder = build.binder() if prop.needs_binder else '/bin/false'
    ctx.repo = build.REPO
    ctx.scratch = scratch or tempfile.mkdtemp(prefix='vsim.', dir=scratch_base())
    ctx.deadline = time.time() + 1e9
    return ctx


def replay(prop, path):
    global _ctx
    d = json.load(open(path))
    ctx = setup_ctx(prop, d.get('seed', 1)); _ctx = ctx
    try:
        prop.prepare(ctx)
        w = _mkworld(ctx, 'w99'); w.probes = collections.Counter()
        v, h = exec_case(prop, d['case'], w)
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    if v and v['class'] == d['violation']['class']:
        same = h == d['hash']
        print('replayed: %s\n%s\nevent log hash %s (%s)' % (v['class'], v['detail'], h[:16], 'identical' if same else 'DIFFERENT from recorded ' + d['hash'][:16]))
        print('VIOLATION property=%s replay=%s' % (prop.id, path))
        return 1 if same else 3
    print('replay: no violation (%s)' % (v,))
    return 0


def check(prop, tier, seed):
    global _ctx
    t0 = time.time()
    ctx = setup_ctx(prop, seed); _ctx = ctx
    rc = 2
    try:
        prop.prepare(ctx)
        tb = time.time() - t0
        nseeds = prop.quick if tier == 'quick' else prop.thorough
        cap = prop.quick_cap if tier == 'quick' else prop.thorough_cap
        cap = float(os.environ.get('VSIM_CAP', cap))
        ctx.deadline = time.time() + cap
        jobs = int(os.environ.get('VSIM_JOBS', os.cpu_count() or 4))
        print('vsim %s tier=%s seed=%d seeds=%d jobs=%d (build %.0fs)' % (prop.id, tier, seed, nseeds, jobs, tb)); sys.stdout.flush()
        mp = multiprocessing.get_context('fork')
        q = mp.Queue()
        for i in range(jobs): q.put(i)
        agg = {'cases': 0, 'hashes': set(), 'samples': [], 'stats': collections.Counter(), 'faults': collections.Counter(), 'probes': collections.Counter(), 'seeds': 0}
        viols = []; errs = []; flaky = []; kf = known_findings(prop.id); known = collections.Counter()
        t1 = time.time()
        with mp.Pool(jobs, _winit, (q,)) as pool:
            for o in pool.imap_unordered(_wseed, range(nseeds), chunksize=1):
                if o.get('skipped'): continue
                if o['err']:
                    errs.append((o['seed'], o['err']))
                    if len(errs) >= 40: break
                    continue
                flaky += [(o['seed'], x) for x in o.get('flaky', [])]
                agg['seeds'] += 1; agg['cases'] += o['cases']; agg['hashes'].update(o['hashes'])
                for k, x in o['stats'].items():
                    if k == 'faults': agg['faults'].update(x)
                    else: agg['stats'][k] += x
                agg['probes'].update(o['probes'])
                if o['sample'] and len(agg['samples']) < 5: agg['samples'].append(o['sample'])
                if o['viol']:
                    if match_known(kf, o['viol']['v']): known[o['viol']['v']['class']] += 1; continue
                    if not viols: vt = time.time()
                    viols.append((o['seed'], o['viol']))
                    if len(viols) >= 3: break
                if viols and time.time() > vt + 6: break
            pool.terminate()
        wall = time.time() - t1
        nviol = 0
        for k in kf: print('KNOWN-FINDING: property=%s %s' % (prop.id, k['what']))
        reported = None
        if viols:
            viols.sort(key=lambda x: x[0])
            w = _mkworld(ctx, 'w98'); w.probes = collections.Counter()
            for s, x in viols:
                a, ha = exec_case(prop, x['case'], w)
                b, hb = exec_case(prop, x['case'], w)
                if not (a and b and a['class'] == b['class'] == x['v']['class'] and ha == hb == x['hash']):
                    print('not reproducible: seed %d %s | again: %s %s %s' % (s, x['v'], a, b, (ha[:8], hb[:8], x['hash'][:8]))); continue
                case, v, n = minimise(prop, x['case'], x['v'], w)
                v2, h2 = exec_case(prop, case, w)
                if not v2: case, v, h2 = x['case'], x['v'], x['hash']
                d = os.path.join(VERIF, 'replays'); os.makedirs(d, exist_ok=True)
                p = os.path.join(d, '%s-%d-%s.json' % (prop.id, s, h2[:10]))
                json.dump({'property': prop.id, 'seed': seed, 'sim_seed': s, 'violation': v, 'hash': h2, 'case': case, 'minimise_runs': n}, open(p, 'w'), indent=1)
                env = dict(os.environ, PYTHONHASHSEED=str(1 + s % 1000))
                r = subprocess.run([sys.executable, '-m', 'vsim.check', prop.id, '--replay', p], cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode != 1:
                    print('fresh-process replay did not reproduce (rc %d): %s' % (r.returncode, r.stdout[-1500:])); continue
                print('seed %d: %s\n%s' % (s, v['class'], v['detail']))
                reported = p; nviol = len(viols); break
        ev = {
            'property': prop.id, 'tier': tier, 'seed': seed, 'level': prop.level,
            'coverage': {
                'evaluations': agg['cases'], 'distinct_nontrivial': len(agg['hashes']), 'rule': prop.rule,
                'samples': agg['samples'][:5],
                'simulated_process_runs': agg['stats']['runs'], 'reference_runs': agg['stats']['golden_runs'], 'seeds': agg['seeds'],
                'seeds_per_hour': int(agg['seeds'] * 3600 / max(wall, .001)), 'runs_per_hour': int(agg['stats']['runs'] * 3600 / max(wall, .001)),
                'file_operations_simulated': agg['stats']['events'], 'simulated_sleep_s': agg['stats']['sim_sleep_ns'] / 1e9,
                'scheduling_decisions': agg['stats']['decisions'], 'preemptions': agg['stats']['preempts'],
                'distinct_measure': 'distinct hashes of the complete event log (operation, path, size, result, injected fault) plus process output of a case',
                'faults_injected': dict(sorted(agg['faults'].items())), 'probes': dict(sorted(agg['probes'].items())),
                'components': prop.components,
            },
            'assumptions': prop.assumptions, 'wall_s': round(time.time() - t0, 1), 'violations': nviol}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop.id + '.json'), 'w'), indent=1)
        print('cases %d distinct %d runs %d in %.0fs; faults: %s; probes: %s' % (agg['cases'], len(agg['hashes']), agg['stats']['runs'], wall, sum(agg['faults'].values()), dict(agg['probes'])) + ('; known findings met: %s' % dict(known) if known else ''))
        if reported:
            print('VIOLATION property=%s replay=%s' % (prop.id, reported)); rc = 1
        elif viols: print('ERROR: violation candidates did not reproduce'); rc = 2
        elif flaky: print('ERROR: %d violation candidates did not repeat: seed %d %s' % (len(flaky), flaky[0][0], flaky[0][1])); rc = 2
        elif errs:
            print('ERROR in simulation: seed %d\n%s' % errs[0]); rc = 2
        elif agg['cases'] == 0: print('ERROR: nothing explored'); rc = 2
        else: rc = 0
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    return rc
