"""C14: generated bindings, compiled against a simulated interpreter, under a seeded thread scheduler."""
import os, re, copy, json, random, shutil, subprocess, hashlib
from . import build
from .engine import Prop
from .world import put, clear_dir
from .props_binder import viol

STUB = os.path.join(build.VERIF, 'sim', 'pystub')
CXX = 'clang++-18'

# type -> usable as (return, argument)
TYPES = ['int', 'double', 'bool', 'unsigned long', 'std::string', 'const std::string &', 'int &', 'const int &', 'Val', 'Val &', 'const Val &', 'Val *', 'const Val *', 'std::shared_ptr<Val>', 'Color', 'std::pair<int, int>', 'const double &', 'float', 'char', 'std::shared_ptr<Val> const &', 'std::pair<int, Val>', 'int *', 'const bool &', 'short', 'long long', 'Color const &']
DEF = {'int': '3', 'double': '2.5', 'bool': 'true', 'unsigned long': '7', 'const std::string &': '"d"', 'std::string': '"e"', 'Val': 'Val()', 'const Val &': 'Val()', 'Color': 'Color::red', 'float': '1', 'short': '1', 'const int &': '4'}
OPS = [('operator()', None), ('operator+', 1), ('operator-', 1), ('operator[]', 1), ('operator==', 1), ('operator*', 1), ('operator<', 1), ('operator+=', 1), ('operator!', 0), ('operator-', 0)]
GUARDS = ['-', 'R', 'R', 'R', 'G', 'GR', 'RG']
GTEXT = {'R': 'pybind11::gil_scoped_release', 'G': 'simh::Guard', 'GR': 'simh::Guard,pybind11::gil_scoped_release', 'RG': 'pybind11::gil_scoped_release,simh::Guard'}


def args_of(rng, n=None):
    n = rng.choice([0, 0, 1, 1, 2, 3, 5, 9]) if n is None else n
    return [rng.choice(TYPES) for _ in range(n)]


def new_method(rng, i, virt):
    m = {'ret': rng.choice(TYPES + ['void'] * 6), 'args': args_of(rng), 'const': rng.random() < .35, 'nx': rng.random() < .15, 'virt': virt, 'pure': False, 'prot': False, 'final': False, 'static': False, 'tmpl': False, 'defs': 0, 'op': None, 'name': 'v%d' % i if virt else 'm%d' % i}
    if virt:
        m['pure'] = rng.random() < .2; m['prot'] = rng.random() < .15; m['final'] = not m['pure'] and rng.random() < .05
        if m['nx']: m['name'] = 'nx%s' % m['name']
        if m['pure']: m['name'] = m['name'].replace('v%d' % i, 'pv_%d' % i)
        if rng.random() < .12 and not m['pure'] and not m['nx']:
            o, n = rng.choice(OPS); m['op'] = o; m['prot'] = False; m['args'] = args_of(rng, n)
    else:
        x = rng.random()
        if m['nx']: m['name'] = 'nx%s' % m['name']
        if x < .2: m['static'] = True; m['const'] = False
        elif x < .35: m['tmpl'] = True; m['args'] = ['int']; m['ret'] = 'int'; m['nx'] = False; m['name'] = 't%d' % i
        elif x < .45 and not m['nx']: o, n = rng.choice(OPS); m['op'] = o; m['args'] = args_of(rng, n)
        elif x < .55: m['prot'] = True
    if not m['op'] and not m['tmpl'] and not virt or (virt and not m['op'] and rng.random() < .1):
        k = 0
        for a in reversed(m['args']):
            if a in DEF and rng.random() < .5: k += 1
            else: break
        m['defs'] = k
    return m


def new_project(rng):
    p = {'guard': rng.choice(GUARDS), 'ns': rng.choice(['app', 'app', 'app::core', 'app::a::b']), 'classes': [], 'funs': [], 'std': rng.choice(['c++11', 'c++17', 'c++14']), 'include': rng.random() < .2, 'flags': [x for x in ('--annotate-functions',) if rng.random() < .1], 'comments': rng.random() < .15}
    k = 0
    for c in range(rng.choice([1, 1, 2, 2, 3, 4])):
        cl = {'name': rng.choice('ABCDEFGHKLM') + str(c), 'bases': [], 'methods': [], 'lift': [], 'overrides': [], 'struct': rng.random() < .4, 'form': rng.choice(['plain'] * 6 + ['tmpl', 'tmpl', 'nested', 'nested']), 'acc': {}}
        bs = [x for x in p['classes'] if x['form'] != 'nested']   # binder refuses bases that are nested classes
        if bs and rng.random() < .6: cl['bases'] = [rng.choice(bs)['name']]
        if c > 1 and cl['bases'] and rng.random() < .15:
            o = rng.choice([x['name'] for x in bs if x['name'] not in cl['bases'] and not x['bases']] or [None])
            b0 = [x for x in p['classes'] if x['name'] == cl['bases'][0]][0]
            if o and not b0['bases']: cl['bases'].append(o)
        for b in cl['bases']: cl['acc'][b] = rng.choice(['public'] * 12 + ['private', 'protected', 'virtual public', 'public virtual'])
        if len(cl['bases']) > 1: cl['acc'] = {b: 'public' for b in cl['bases']}
        for _ in range(rng.choice([1, 2, 3, 5])):
            cl['methods'].append(new_method(rng, k, rng.random() < .6)); k += 1
            if rng.random() < .08: m = copy.deepcopy(cl['methods'][-1]); cl['methods'].append(dict(m, args=m['args'] + ['Color'], defs=0)) if not m['op'] and not m['defs'] and not m['tmpl'] else None
        for b in cl['bases']:
            for m in [x for y in p['classes'] if y['name'] == b for x in y['methods']]:
                if m['virt'] and not m['final'] and not m['op'] and rng.random() < .4: cl['overrides'].append([b, y_index(p, b, m)])
                if m['prot'] and not m['virt'] and rng.random() < .7: cl['lift'].append([b, m['name']])
        if not any(m['virt'] for m in cl['methods']): cl['methods'].append(new_method(rng, k, True)); k += 1
        p['classes'].append(cl)
    for _ in range(rng.choice([0, 1, 2, 4])):
        f = new_method(rng, k, False); k += 1; f.update(static=False, const=False, prot=False, op=None)
        f['variadic'] = not f['tmpl'] and not f['defs'] and bool(f['args']) and not f['args'][-1].endswith('&') and f['args'][-1] in ('int', 'double', 'unsigned long') and rng.random() < .3
        p['funs'].append(f)
    return p


def y_index(p, b, m): return [x for y in p['classes'] if y['name'] == b for x in y['methods']].index(m)


def ref(c): return c['name'] + '<int>' if c['form'] == 'tmpl' else 'Outer_%s::%s' % (c['name'], c['name']) if c['form'] == 'nested' else c['name']


def find_cl(p, n): return [c for c in p['classes'] if c['name'] == n][0]


def ret_stmt(r):
    if r == 'void': return ''
    b = r.replace('const', '').replace('&', '').replace('*', '').strip()
    if r.endswith('&'): return ' static %s r_{}; return r_;' % b
    if r.endswith('*'): return ' static %s r_; return &r_;' % b
    return ' return %s();' % b if ' ' not in b or '<' in b else ' %s r_ = 0; return r_;' % b


def params(m, defs=True):
    o = []
    for i, a in enumerate(m['args']):
        d = ''
        if defs and i >= len(m['args']) - m['defs']: d = ' = ' + DEF[a]
        o.append('%s a%d%s' % (a, i, d))
    return ', '.join(o)


def sig(m): return m['op'] or m['name']


def method_text(cl, m, override=False):
    body = ' { SIM_BODY("%s%s::%s");%s }' % ('nx ' if m['nx'] else '', cl['name'], sig(m), ret_stmt(m['ret']))
    if m['tmpl']: return 'template<class T> T %s(T a)%s { SIM_BODY("%s::%s"); return a; }' % (m['name'], ' const' if m['const'] else '', cl['name'], m['name'])
    t = ('static ' if m['static'] else '') + ('virtual ' if m['virt'] and not override else '') + '%s %s(%s)' % (m['ret'], sig(m), params(m, not override))
    t += (' const' if m['const'] else '') + (' noexcept' if m['nx'] else '') + (' override' if override else ' final' if m['final'] else '')
    return t + (' = 0;' if m['pure'] and not override else body)


def all_virtuals(p, cl, seen=None):
    """(method, class that declares it) of all virtual methods callable on cl"""
    out = []; seen = set() if seen is None else seen
    for m in cl['methods']:
        if m['virt']:
            k = (sig(m), tuple(m['args']), m['const'])
            if k not in seen: seen.add(k); out.append((m, ref(cl)))
    for b in cl['bases']:
        if 'public' in cl['acc'][b]: out += all_virtuals(p, find_cl(p, b), seen)
    return out


def render(p):
    h = '#pragma once\n#include <memory>\n#include <string>\n#include <utility>\n#include <simhook.hpp>\n'
    ns = p['ns'].split('::')
    h += ''.join('namespace %s {\n' % n for n in ns)
    h += 'enum class Color { red, green };\nstruct Val { int x; Val() : x(1) {} Val(int y) : x(y) {} int get() const { SIM_BODY("Val::get"); return x; } static Val make(int a, int b = 2) { SIM_BODY("Val::make"); return Val(a + b); } };\n'
    for cl in p['classes']:
        if p['comments']: h += '/// %s: documented "class" \\ here\n' % cl['name']
        h += {'plain': '', 'tmpl': 'template<class T_>\n', 'nested': 'struct Outer_%s { ' % cl['name']}[cl['form']]
        h += '%s %s%s {\npublic:\n\t%s() {}\n\tvirtual ~%s() {}\n' % ('struct' if cl['struct'] else 'class', cl['name'], ' : ' + ', '.join(cl['acc'][b] + ' ' + ref(find_cl(p, b)) for b in cl['bases']) if cl['bases'] else '', cl['name'], cl['name'])
        for b, i in cl['overrides']:
            m = find_cl(p, b)['methods'][i] if i < len(find_cl(p, b)['methods']) else None
            if m is None: continue
            h += ('protected:\n' if m['prot'] else 'public:\n') + '\t' + method_text(cl, m, True) + '\n'
        for m in cl['methods']:
            if p['comments']: h += '\t/// does something\n'
            h += ('protected:\n' if m['prot'] else 'public:\n') + '\t' + method_text(cl, m) + '\n'
        h += 'public:\n'
        for b, n in cl['lift']: h += '\tusing %s::%s;\n' % (ref(find_cl(p, b)), n)
        for m in cl['methods']:
            if m['prot'] and m['virt']: h += '\tauto call_%s(%s)%s -> %s { return %s(%s); }\n' % (m['name'], params(m, False), ' const' if m['const'] else '', m['ret'], m['name'], ', '.join('a%d' % i for i in range(len(m['args']))))
        h += {'plain': '};\n', 'tmpl': '};\ninline void use_%s(%s &o) { SIM_BODY("use_%s"); }\n' % (cl['name'], ref(cl), cl['name']), 'nested': '}; int tag = 0; };\n'}[cl['form']]
    for f in p['funs']:
        if f['tmpl']: h += 'template<class T> T %s(T a) { SIM_BODY("%s"); return a; }\n' % (f['name'], f['name'])
        else: h += 'inline %s %s(%s%s)%s { SIM_BODY("%s%s");%s }\n' % (f['ret'], f['name'], params(f), ', ...' if f.get('variadic') else '', ' noexcept' if f['nx'] else '', 'nx ' if f['nx'] else '', f['name'], ret_stmt(f['ret']))
    inst = ['%s<int>(1);' % f['name'] for f in p['funs'] if f['tmpl']]
    for cl in p['classes']: inst += ['((%s *)0)->%s<int>(1);' % (ref(cl), m['name']) for m in cl['methods'] if m['tmpl']]
    if inst: h += 'struct Inst_ { void inst_() { if( this == nullptr ) { %s } } };\n' % ' '.join(inst)
    h += '}\n' * len(ns)
    cfg = '+namespace app\n'
    if p['guard'] != '-': cfg += '+default_call_guard %s\n' % GTEXT[p['guard']]
    if p['include']: cfg += '+include <simhook.hpp>\n'
    x = '#include "simpch.hpp"\n#include <p.hpp>\n#include "m.cpp"\nstatic void init_() { pybind11::module m_; sim_module_init(m_); using namespace %s;\n' % p['ns']
    for cl in p['classes']:
        for m, owner in all_virtuals(p, cl):
            call = 'call_' + m['name'] if m['prot'] else sig(m)
            a = ', '.join('simpy::Make<%s>::get()' % t for t in m['args'])
            x += '\tsimpy::virts.push_back({"%s::%s", [] { return simpy::Inst<%s>::alias() != nullptr; }, [] { %s *o_ = simpy::Inst<%s>::alias(); %s &b_ = *o_; (void)b_.%s(%s); }, %s});\n' % (cl['name'], sig(m), ref(cl), ref(cl), ref(cl), owner, call, a, 'true' if m['nx'] else 'false')
    x += '}\nint main(int c, char **v) { return simpy::harness_main(c, v, init_); }\n'
    return {'p.hpp': h, 'all.hpp': '#include <p.hpp>\n', 'c.cfg': cfg}, x


def choices(rng): return [rng.randrange(24) for _ in range(rng.choice([0, 1, 2, 4, 8]))]


class C14(Prop):
    id = 'C14'
    level = 'exploration'
    rule = 'case = generated bindings of one project (virtual functions, bound functions, guard configuration), one scenario of interpreter and C++ threads, and a block of seeded schedules; non-trivial: at least one preemption took place or one trampoline or guarded body was entered'
    quick, thorough = 400, 20000
    components = {'real': 'binder executable built from /repo, the trampolines and function bindings it generates (compiled unchanged)', 'simulated': 'thread scheduling, interpreter lock, presence and behaviour of Python overrides, exceptions', 'stub': 'pybind11 and the interpreter (sim/pystub)'}
    assumptions = ['the stand-in acquires, releases and restores the lock as pybind11 2.11 does', 'user code supplied through custom trampoline or custom binder directives is not judged']

    def prepare(self, ctx):
        l = build._lock()
        src = [os.path.join(STUB, f) for f in sorted(os.listdir(STUB)) if f.endswith('.hpp')] + [os.path.join(STUB, 'pybind11', 'pybind11.h')]
        d = os.path.join(build.BUILD, 'pystub-' + build._hash(src))
        if not os.path.exists(d + '/done'):
            shutil.rmtree(d, ignore_errors=True); shutil.copytree(STUB, d)
            r = subprocess.run([CXX] + self.flags() + ['-I', d, '-x', 'c++-header', d + '/simpch.hpp', '-o', d + '/simpch.hpp.pch'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: raise SystemExit('vsim: stub does not build: ' + r.stdout[-2000:])
            open(d + '/done', 'w').close()
        l.close(); ctx.stub = d

    def flags(self): return ['-std=c++17', '-O0', '-w', '-fno-delete-null-pointer-checks']

    def harness(self, w, p):
        """-> path of the harness for project p, or None if there is nothing to run"""
        key = hashlib.sha256(json.dumps(p, sort_keys=True).encode()).hexdigest()[:16]
        if getattr(w, '_h14', (None,))[0] == key: return w._h14[1]
        d = w.root + '/t14'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/out')
        fs, x = render(p)
        for k, t in fs.items(): put(d + '/' + k, t)
        put(d + '/out/h.cpp', x)
        exe = None
        a = [w.binder, '--root-module', 'm', '--prefix', d + '/out', '--single-file', '--config', d + '/c.cfg'] + p['flags'] + [d + '/all.hpp', '--', '-x', 'c++', '-std=' + p['std'], '-I' + d, '-I' + STUB]
        r = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=120, cwd=d, env={'PATH': '/usr/bin:/bin', 'LC_ALL': 'C'})
        w.why = r.stdout
        if r.returncode == 0 and os.path.exists(d + '/out/m.cpp'):
            c = subprocess.run([CXX] + self.flags() + ['-include-pch', w.ctx.stub + '/simpch.hpp.pch', '-I', w.ctx.stub, '-I', d, d + '/out/h.cpp', '-o', d + '/h', '-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=300)
            w.why = c.stdout
            if c.returncode == 0: exe = d + '/h'
        w._h14 = (key, exe)
        w.probes['harness built' if exe else 'harness not built'] += 1
        return exe

    def cases(self, rng, w):
        p = new_project(rng); n = rng.choice([6, 8, 10])
        exe = self.harness(w, p)
        if not exe: return
        ls = subprocess.run([exe, '--list'], stdout=subprocess.PIPE, text=True, timeout=60).stdout.splitlines()
        nb = sum(x[0] == 'B' for x in ls); nv = sum(x[0] == 'V' for x in ls)
        mk = lambda th: {'proj': p, 'threads': th, 'fb': False, 'sched': {'seed': rng.randrange(1 << 30), 'p': 30, 'n': 8}, 'preempt': None}
        # every bound function and every virtual function at least once
        if nb: yield mk([{'py': True, 'ops': [['b', k] + choices(rng) * (rng.random() < .3) for k in range(nb)]}, {'py': False, 'ops': [['v', k, 1] for k in range(nv)]}])
        if nv: yield mk([{'py': False, 'ops': [['v', k, 0] + choices(rng) for k in range(nv)]}, {'py': False, 'ops': [['v', k, 1] + choices(rng) for k in range(nv)]}, {'py': True, 'ops': [['v', k, rng.randrange(2)] for k in range(nv)]}])
        for i in range(n):
            th = []
            for _ in range(rng.choice([1, 2, 2, 3, 4])):
                py = rng.random() < .55
                th.append({'py': py, 'ops': [['b' if py and rng.random() < .75 else 'v', rng.randrange(200)] + choices(rng) for _ in range(rng.choice([1, 2, 3, 5]))]})
            fb = i == n - 1 and 'R' in p['guard'] and rng.random() < .3
            yield {'proj': p, 'threads': th, 'fb': fb, 'sched': {'seed': rng.randrange(1 << 30), 'p': rng.choice([5, 15, 30, 60, 90]), 'n': 60}, 'preempt': None}

    def scenario(self, case):
        L = ['guard ' + case['proj']['guard'], 'fallbackwait %d' % int(bool(case['fb']))]
        for t in case['threads']:
            L.append('thread ' + ('py' if t['py'] else 'cpp'))
            L += ['op ' + ' '.join(map(str, o)) for o in t['ops']]
        if case['preempt'] is not None: L += ['preempt'] + ['preempt %d %d' % tuple(x) for x in case['preempt']]
        else: L.append('sched %(seed)d %(p)d %(n)d' % case['sched'])
        return '\n'.join(L) + '\n'

    def run(self, case, w):
        w.nontrivial = False
        exe = self.harness(w, case['proj'])
        if not exe: return None
        sc = w.root + '/t14/scenario'; put(sc, self.scenario(case))
        try: r = subprocess.run([exe, sc], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=100)
        except subprocess.TimeoutExpired: return viol('hang', 'the process hangs outside of the simulated scheduler')
        w.stats['runs'] += 1
        self.last = []
        V = None; trace = ''
        for line in r.stdout.splitlines():
            f = line.split('\t')
            if f[0] == 'VIOL': V = [f[1], f[2]]
            elif f[0] == 'PREEMPT': self.last.append([int(f[1]), int(f[2])])
            elif f[0] == 'TRACE': trace = f[1]
            elif f[0] == 'OK':
                w.stats['decisions'] += int(f[5]); w.stats['preempts'] += int(f[6]); w.stats['events'] += int(f[4]); w.probes['schedules'] += int(f[1]); w.probes['distinct schedules'] += int(f[2])
            elif f[0] == 'SEEN':
                w.probes[f[1]] += int(f[2]); w.nontrivial = True
                if f[1] in ('body throws', 'override raises'): w.stats['faults']['exception:' + f[1].split()[0]] = w.stats['faults'].get('exception:' + f[1].split()[0], 0) + int(f[2])
        w.lasthash.update(r.stdout.encode())
        if V: return viol(V[0], '%s\n  guard=%s; last steps: %s' % (V[1], case['proj']['guard'], trace.replace('|', '; ')[-1200:]))
        if r.returncode: return viol('crash', 'generated code ends with status %d: %s' % (r.returncode, (r.stdout + r.stderr)[-400:]))
        return None

    def shrink(self, case):
        if case['preempt'] is None:
            c = copy.deepcopy(case); c['preempt'] = list(getattr(self, 'last', [])); yield c
        else:
            n = len(case['preempt']); k = max(1, n // 2)
            while k >= 1 and n:
                for i in range(0, n, k): c = copy.deepcopy(case); del c['preempt'][i:i + k]; yield c
                k //= 2
        for i in range(len(case['threads'])):
            if len(case['threads']) > 1: c = copy.deepcopy(case); c['threads'].pop(i); yield c
        for i, t in enumerate(case['threads']):
            for j in range(len(t['ops'])):
                if len(t['ops']) > 1: c = copy.deepcopy(case); c['threads'][i]['ops'].pop(j); yield c
                if len(t['ops'][j]) > 2: c = copy.deepcopy(case); c['threads'][i]['ops'][j].pop(); yield c

    def describe(self, case): return json.dumps({'guard': case['proj']['guard'], 'classes': [c['name'] + ':' + ','.join(m['ret'] + ' ' + sig(m) for m in c['methods']) for c in case['proj']['classes']], 'threads': case['threads'], 'sched': case['sched']})[:700]


PROPS = [C14]
