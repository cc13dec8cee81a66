"""Seeded workload generator: random C++ header projects, binder configurations and options.

A project is a structural model (JSON); render() turns it into files.  Mutation and shrinking
work on the model, rendering tolerates dangling references."""
import random, copy

DIRS = ['', '', 'a/', 'a/b/', 'a/b/c/', 'core/', 'core/io/', 'x/', 'lib_1/', 'sub-dir/', 'Util/']
STEMS = ['x', 'y', 'z', 'pose', 'io', 'x_1', 'y_2', 'a_x', 'core_io', 'types', 'util', 'm_1', 'Base', 'w-ird', 'v1.2', 'graph', 'mesh', 'node']
EXTS = ['.hpp', '.hpp', '.hh', '.h', '.hxx']
NSES = ['', 'n0', 'n0::k1', 'n0::k1::deep', 'n1', 'n1::q', 'std_like', 'zz', 'Alpha::beta', 'n1::q::k1', 'n0_k1']
PRIM = ['int', 'double', 'bool', 'unsigned long', 'char', 'float', 'long long', 'const char *']
STL = ['std::string', 'std::vector<int>', 'std::vector<double>', 'std::map<int, std::string>', 'std::shared_ptr<int>', 'std::pair<int, double>', 'std::set<int>']


# single declarations of many kinds; @ is a unique name
MISC = [
    'typedef struct { int a; double b; } @;',
    'enum { @_a, @_b };',
    'template<typename T> T @(T a) { return a; }\ninline void @_use() { @<int>(1); @<double>(1.); @<char>(0); }',
    'struct @ { static int count; int arr[4]; const int k = 1; @() = default; @(@ const &) = delete; @ &operator=(@ const &) = delete; };',
    'struct @ { union { int a; float b; }; struct { int c; } in; int tail; };',
    'class @ { protected: @() {} int hidden; public: virtual ~@() {} virtual int p() = 0; protected: virtual void q(int) = 0; };',
    'extern int @_var; int @(int &, int *);',
    'template<int N, typename T> struct @ { T v[N]; T at(int) const; };\nvoid @_use(@<3, int> const &, @<7, double> &);',
    'template<typename... A> struct @ { virtual ~@() {} virtual int f(A...) { return 0; } };\ninline void @_use(@<int, double> &a, @<> &b) { a.f(1, 1.); b.f(); }',
    'struct @; void @_fwd(@ *);',
    'int @(int (*cb)(int, double), int n = 3);',
    'void @(int &&); void @_2(unsigned char, signed char, short = 4);',
    'struct @ { int v; bool operator<(@ const &) const; };\n@ operator+(@ const &, @ const &); bool operator!=(@ const &, @ const &);',
    'struct @ { operator int() const; int operator()(int, int) const; @ &operator+=(int); @ operator-() const; double &operator[](int); };',
    'struct @ { class Inner { public: struct Deep { int z; }; Inner(int); virtual ~Inner() {} virtual Deep get() const; }; enum class Mode { off, on }; virtual Inner *make(Mode = Mode::on); virtual ~@() {} };',
    'class @ { @(); public: static @ &instance(); static @ *ptr(); int value() const; };',
    'struct @_b1 { virtual ~@_b1() {} virtual int who() { return 1; } int one; }; struct @_b2 { virtual ~@_b2() {} virtual int whom() const { return 2; } };\nstruct @ : public @_b2, public @_b1 { using @_b1::one; int who() override { return 3; } };',
    'struct @_v { int v; virtual ~@_v() {} }; struct @_l : virtual public @_v {}; struct @_r : virtual public @_v {}; struct @ : public @_l, public @_r { int join(); };',
    'struct @; struct @_user { @ *p; virtual ~@_user() {} virtual @ *get(@ *); }; struct @ : public @_user { int v; };\nstruct @_sub : public @ {};',
    'struct @ { struct Fwd; Fwd *p; struct Fwd { int a; int get(Fwd *); }; Fwd *q(); };',
    'int @(int); int @(int); inline int @(int a) { return a; }\nstruct @_s; struct @_s; struct @_s { int v; }; struct @_s;',
    'struct @_c { int c; }; template<class T> struct @ { T v; };\ninline void @_use(@<int>, @<unsigned int>, @<long>, @<unsigned long>, @<int *>, @<const int *>, @<@_c>, @<@_c *>, @<const @_c *>, @< @<int> >, @<signed char>, @<unsigned char>, @<char>) {}',
    'enum class @_e { x, y }; template<int N, bool B> struct @ { int v; }; template<@_e X> struct @_q { int v; };\ninline void @_use(@<3, true>, @<3, false>, @<-3, true>, @<30, true>, @_q<@_e::x>, @_q<@_e::y>) {}',
    'struct @_c { int c; }; template<class A, class B> struct @ : public A { B b; };\ninline void @_use(@<@_c, int>, @<@_c, @_c>, @< @<@_c, int>, double>, @<@_c, @<@_c, int> >) {}',
]


class G:
    def __init__(self, rng, size=None, stl=None, mix=.06):
        self.mix = mix
        self.r = rng
        self.n = 0
        self.size = size if size is not None else rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
        self.stl = stl if stl is not None else rng.random() < 0.08
        self.classes = []   # (qualified, header index)
        self.enums = []
        self.abstracts = []
        self.mixins = []

    def name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def typ(self, ret=False):
        r = self.r
        x = r.random()
        if self.classes and x < 0.35:
            q = r.choice(self.classes)
            return {'t': 'class', 'q': q, 'm': r.choice(['const &', '&', '*', ''] if not ret else ['&', '*', 'const &', ''])}
        if self.enums and x < 0.45:
            return {'t': 'enum', 'q': r.choice(self.enums)}
        if self.stl and x < 0.75:
            return {'t': 'prim', 'q': r.choice(STL), 'm': r.choice(['', 'const &'])}
        if ret and x > 0.85:
            return {'t': 'prim', 'q': 'void', 'm': ''}
        return {'t': 'prim', 'q': r.choice(PRIM), 'm': ''}

    def args(self, mx=4):
        r = self.r
        a = [self.typ() for _ in range(r.randrange(mx))]
        return {'a': a, 'd': r.randrange(2) if a and a[-1]['t'] == 'prim' and a[-1]['q'] in ('int', 'double', 'bool') else 0}

    def item(self, ns):
        r = self.r
        x = r.random()
        doc = 'doc %d %s' % (r.randrange(1000), 'lorem ipsum ' * r.randrange(4)) if r.random() < 0.4 else None
        if x < 0.5:
            it = {'k': 'class', 'ns': ns, 'name': self.name('C'), 'doc': doc, 'struct': r.random() < .5, 'base': None, 'base2': None,
                  'methods': [], 'fields': [], 'ctors': r.randrange(3), 'nested_enum': r.random() < .15, 'nested_class': r.random() < .12, 'ops': r.random() < .15, 'shared': False}
            if self.classes and r.random() < 0.5: it['base'] = r.choice(self.classes)
            if self.abstracts and r.random() < .3: it['base'] = r.choice(self.abstracts)
            if r.random() < .07: it['abs'] = self.name('pure')
            if r.random() < .12: it['ins'] = True
            if r.random() < .05: it['fat'] = r.choice([20, 60, 60, 120, 200])
            if self.classes and it['base'] and r.random() < 0.15:
                b2 = r.choice(self.classes)
                if b2 != it['base']: it['base2'] = b2
            for _ in range(r.choice([0, 1, 2, 3, 5, 9])):
                it['methods'].append({'n': self.name('m'), 'ret': self.typ(True), 'args': self.args(), 'v': r.random() < 0.35, 'pv': False, 'c': r.random() < .3, 's': r.random() < .12, 'ov': r.random() < .2, 'prot': r.random() < .06})
            for _ in range(r.randrange(4)):
                it['fields'].append({'n': self.name('f'), 't': r.choice(PRIM[:5]), 's': False})
            return it
        if x < 0.56: return {'k': 'misc', 'ns': ns, 'name': self.name('M'), 'i': r.randrange(len(MISC)), 'doc': doc}
        if x < 0.60:
            if self.mixins and self.classes and r.random() < .7: return {'k': 'mixuse', 'ns': ns, 'name': self.name('mu'), 'mix': r.choice(self.mixins), 'q': r.choice(self.classes), 'q2': r.choice(self.classes), 'doc': doc}
            return {'k': 'mixin', 'ns': ns, 'name': self.name('X'), 'doc': doc, 'two': r.random() < .4}
        if x < 0.70:
            return {'k': 'enum', 'ns': ns, 'name': self.name('E'), 'scoped': r.random() < .5, 'n': r.randrange(1, 6), 'doc': doc}
        if x < 0.94:
            return {'k': 'func', 'ns': ns, 'name': self.name('f') if r.random() < .85 else 'ovl', 'ret': self.typ(True), 'args': self.args(5), 'doc': doc, 'u': self.name('u')}
        return {'k': 'tmpl', 'ns': ns, 'name': self.name('T'), 'inst': [r.choice(PRIM[:4]) for _ in range(r.randrange(1, 4))], 'fn': self.name('tf')}

    def more_config(self, lines, nss, hs):
        r = self.r
        pick = lambda p: r.random() < p
        P = 'pybind11::return_value_policy::'
        for k in ('default_static_pointer', 'default_static_lvalue_reference', 'default_static_rvalue_reference', 'default_member_lvalue_reference', 'default_member_rvalue_reference'):
            if pick(.06): lines.append('+%s_return_value_policy %s' % (k, P + r.choice(['copy', 'move', 'take_ownership', 'reference_internal'])))
        if pick(.1): lines += ['+include "%s"' % x for x in r.sample(['z/last.hpp', 'a/first.hpp', 'mid.hpp'], r.randrange(1, 4))]
        if pick(.1): lines.append('-include <%s>' % r.choice(hs)['path'])
        if pick(.08): lines.append('+custom_shared boost::shared_ptr')
        if pick(.05): lines.append('+pybind11_include_file pybind11/smart_holder.h')
        if pick(.08): lines.append('+prefix_for_static_member_functions s_')
        if pick(.1): lines += ['+module_local_namespace ' + n for n in nss if n] or ['+module_local_namespace @all_namespaces']
        if self.classes:
            q = r.choice(self.classes)
            if pick(.1): lines += ['+include_for_class %s <cls_%d.hpp>' % (r.choice(self.classes), j) for j in range(r.randrange(1, 5))]
            if pick(.06): lines.append('+buffer_protocol ' + q)
            if pick(.06): lines.append('+smart_holder ' + q)
            if pick(.05): lines.append('+binder %s custom_fn<%s>' % (q, q))
            if pick(.06): lines.append('+add_on_binder %s\tsecond_fn' % q)
            c = [i for h in hs for i in h['items'] if i['k'] == 'class' and i['fields']]
            if c and pick(.1): c = r.choice(c); lines.append('-field %s::%s' % (qname(c), r.choice(c['fields'])['n']))
            c = [i for h in hs for i in h['items'] if i['k'] == 'class' and any(m['v'] for m in i['methods'])]
            if c and pick(.08): c = r.choice(c); lines.append('+trampoline_member_function_binder %s::%s my_trampoline' % (qname(c), r.choice([m['n'] for m in c['methods'] if m['v']])))
        if self.enums and pick(.08): lines.append('-enum ' + r.choice(self.enums))
        ns = [n for n in nss if n]
        if ns and pick(.08): lines.append('+binder_for_namespace %s whole_ns_fn' % r.choice(ns))
        if ns and pick(.1): lines += ['+include_for_namespace %s <nsx_%d.hpp>' % (r.choice(ns), j) for j in range(r.randrange(1, 4))]
        deep = [n for n in ns if '::' in n]
        if deep and pick(.06): lines.append('-namespace ' + r.choice(deep))

    def project(self):
        r = self.r
        hs = []
        used = set()
        ns_pool = r.sample(NSES, r.choice([1, 1, 2, 2, 3, 3, 4, 4, 8]))
        k = 0
        while len(hs) < self.size and k < 40:
            k += 1
            p = r.choice(DIRS) + r.choice(STEMS) + r.choice(EXTS)
            if p in used or p == 'all.hpp': continue
            used.add(p)
            items = []
            many = r.random() < .04; same = r.choice(ns_pool)
            for _ in range(r.choice([1, 1, 2, 3, 4, 6]) if not many else r.choice([11, 13, 24])):
                it = self.item(same if many else r.choice(ns_pool))
                items.append(it)
                q = (it['ns'] + '::' if it['ns'] else '') + it['name']
                if it['k'] == 'class': (self.abstracts if it.get('abs') else self.classes).append(q)
                if it['k'] == 'mixin': self.mixins.append(q)
                if it['k'] == 'enum': self.enums.append(q)
            hs.append({'path': p, 'quote': r.random() < .25, 'items': items, 'spell': r.choice(['../in/', './', '../in/../in/', '../in/./']) if r.random() < .08 else ''})
        if self.classes and r.random() < 0.3:
            # friendly name collisions between header spellings
            h = r.choice(hs)
            s = h['path'].rsplit('.', 1)[0]
            alt = None
            if '/' in s: alt = s.replace('/', '_') + '.hpp'
            else: alt = s + '_1.hpp'
            if alt not in used:
                it = self.item(r.choice(ns_pool)); hs.append({'path': alt, 'quote': False, 'items': [it]}); used.add(alt)
        if r.random() < self.mix and len(self.classes) > 1:
            # templates whose instances come before their bases: bindings have to be reordered
            xs = [{'k': 'mixin', 'ns': r.choice(ns_pool), 'name': self.name('X'), 'doc': None, 'two': r.random() < .75} for _ in range(r.randrange(1, 3))]
            hs[0]['items'][0:0] = xs
            q = [qname(x) for x in xs]
            for _ in range(r.randrange(2, 6)):
                a, b = r.sample(self.classes, 2)
                hs[-1]['items'].append({'k': 'mixuse', 'ns': r.choice(ns_pool), 'name': self.name('mu'), 'mix': r.choice(q), 'q': a, 'q2': b, 'doc': None})
        proj = {'headers': hs, 'stl': self.stl, 'binds': [], 'cfg': None, 'std': r.choice(['c++11', 'c++11', 'c++14', 'c++17'])}
        if r.random() < .15: proj['main'] = [{'ns': r.choice(ns_pool), 'name': self.name('W'), 'i': r.randrange(len(MISC))} for _ in range(r.randrange(1, 3))]
        nss = sorted({i['ns'] for h in hs for i in h['items']})
        tops = sorted({n.split('::')[0] for n in nss})
        m = r.random()
        if '' in nss or m < 0.4: proj['binds'] = ['']
        elif m < 0.7: proj['binds'] = [n for n in tops if n]
        lines = []
        if not proj['binds']:
            lines += ['+namespace ' + n for n in tops if n]
        if lines or r.random() < 0.6:
            if r.random() < .4: lines.insert(0, '# configuration')
            if r.random() < .3: lines.append('+include <extra/add_on.hpp>')
            if r.random() < .15: lines.append('+default_call_guard pybind11::gil_scoped_release')
            if r.random() < .15: lines.append('+default_member_pointer_return_value_policy pybind11::return_value_policy::reference')
            if r.random() < .2 and nss[-1]: lines.append('+include_for_namespace %s <ns_extra.hpp>' % nss[-1])
            if self.classes and r.random() < .2: lines.append('+include_for_class %s <cls_extra.hpp>' % r.choice(self.classes))
            if self.classes and r.random() < .15: lines.append('+add_on_binder %s add_on_fn' % r.choice(self.classes))
            if nss[-1] and r.random() < .1: lines.append('+add_on_binder_for_namespace %s ns_add_on_fn' % nss[-1])
            self.more_config(lines, nss, hs)
            fs = [i for h in hs for i in h['items'] if i['k'] == 'func']
            if fs and r.random() < .3:
                f = r.choice(fs); lines.append('-function ' + (f['ns'] + '::' if f['ns'] else '') + f['name'])
            leaf = [q for q in self.classes if not any(q in str(i) for h in hs for i in h['items'] if (i['ns'] + '::' if i['ns'] else '') + i['name'] != q)]
            if leaf and r.random() < .3: lines.append('-class ' + r.choice(leaf))
            if r.random() < .3: lines.append('')
            if r.random() < .12:   # a big configuration: several reads are needed
                for j in range(r.randrange(100, 260)): lines.insert(r.randrange(len(lines) + 1), '# ' + 'padding %d ' % j * r.randrange(1, 9))
            if r.random() < .1: lines.append('-namespace not::there')
            proj['cfg'] = {'lines': lines, 'crlf': r.random() < .1, 'nonl': r.random() < .2}
        return proj


def new_project(rng, size=None, stl=None, mix=.06):
    return G(rng, size, stl, mix).project()


def entangle(rng, proj):
    """templates deriving from their arguments, instances of instances, used far from their declaration: many reorderings"""
    hs = proj['headers']
    cl = [(i, qname(it)) for i, h in enumerate(hs) for it in h['items'] if it['k'] == 'class' and not it.get('abs')]
    if not cl: return
    ns = [it['ns'] for h in hs for it in h['items']]
    k = rng.randrange(10 ** 4)
    mx = []
    for j in range(rng.randrange(1, 4)):
        it = {'k': 'mixin', 'ns': rng.choice(ns), 'name': 'Y%d_%d' % (k, j), 'doc': None, 'two': False}
        hs[0]['items'].insert(0, it); mx.append(qname(it))
    for j in range(rng.choice([2, 3, 4, 6, 6, 30])):
        i, q = rng.choice(cl); i = rng.randrange(i, len(hs)); m = [rng.choice(mx) for _ in range(rng.choice([1, 1, 2, 3]))]
        t = ''.join('::%s< ' % x for x in m) + '::' + q + ' >' * len(m)
        it = {'k': 'raw', 'ns': rng.choice(ns), 'name': 'R%d_%d' % (k, j), 'doc': None, 'mix': m[0], 'q': q, 'need': sorted(set(m)) + [q],
              'text': rng.choice(['struct @ : public %s { int r; virtual int raw_f(); };', 'struct @ : public %s { int r; };', 'inline unsigned long @(%s const &m) { return sizeof(m); }', 'struct @ { struct In { int a; enum Q { q1, q2 }; struct Deep { int d; }; }; %s *link; inline unsigned long size() { return sizeof(*link); } };'] if rng.random() > .01 else ['struct @ { struct In : public %s { int a; }; };']) % t}
        items = hs[i]['items']
        pos = max([n + 1 for n, x in enumerate(items) if qname(x) in it['need']] or [0])
        items.insert(rng.randrange(pos, len(items) + 1), it)


def pad(rng, proj, opts, w):
    """lengthen a documentation text so that one of the generated files ends at (or next to) a block boundary"""
    docs = [it for h in proj['headers'] for it in h['items'] if it.get('doc') and it['k'] in ('class', 'func', 'enum')]
    if not docs: return proj
    i = rng.randrange(len(docs)); text = docs[i]['doc'].strip().encode()
    g = w.golden(proj, opts)
    if not g.ok(): return proj
    fs = sorted((k, x.count(text), len(x)) for k, x in g.files.items() if x.count(text))
    if not fs: return proj
    k, c, n = rng.choice(fs); b = rng.choice([256, 512, 1024, 4096, 4096, 8192, 8192, 16384]); o = rng.choice([0, 0, 0, 1, -1])
    for d in range(0, b + 1):
        if (n + c * d - o) % b == 0: break
    else: return proj
    p = copy.deepcopy(proj); it = [it for h in p['headers'] for it in h['items'] if it.get('doc') and it['k'] in ('class', 'func', 'enum')][i]
    it['doc'] = it['doc'].strip() + 'x' * d
    w.probes['padded'] += 1
    return p


def qname(it): return (it['ns'] + '::' if it['ns'] else '') + it['name']


def _t(t, known):
    if t['t'] == 'class':
        if t['q'] not in known: return 'int'
        m = t['m']
        if m == 'const &': return 'const ::%s &' % t['q']
        return '::%s %s' % (t['q'], m) if m else '::' + t['q']
    if t['t'] == 'enum': return '::' + t['q'] if t['q'] in known else 'int'
    if t.get('m') == 'const &': return 'const %s &' % t['q']
    return t['q']


def _a(a, known):
    out = []
    for i, x in enumerate(a['a']):
        s = _t(x, known) + ' a%d' % i
        if a['d'] and i == len(a['a']) - 1: s += ' = 1'
        out.append(s)
    return ', '.join(out)


def _refs(it):
    s = set()
    def walk(x):
        if isinstance(x, dict):
            if x.get('t') in ('class', 'enum'): s.add(x['q'])
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    walk(it)
    s.update(it.get('need') or ())
    for b in ('base', 'base2', 'mix', 'q', 'q2'):
        if it.get(b): s.add(it[b])
    return s


def _final_dtor(it): return '\tvirtual ~%s() {}\n' % it['name']


def render(proj):
    """-> {relative path: text}; main header is all.hpp"""
    files = {}
    where = {}
    for h in proj['headers']:
        for it in h['items']: where[qname(it)] = h['path']
    known = {}
    bases = {}
    two = set()     # mixins with two bases
    def anc(x): return {x} | set().union(*[anc(y) for y in bases.get(x, [])]) if bases.get(x) else {x}
    pure = {}       # class -> names of its pure virtual functions
    for n, h in enumerate(proj['headers']):
        inc = set()
        body = ''; ios = False
        for it in h['items']:
            for q in _refs(it):
                if q in known and known[q] != h['path']: inc.add(known[q])
            ns = it['ns'].split('::') if it['ns'] else []
            b = ''.join('namespace %s { ' % x for x in ns) + '\n'
            if it.get('doc'): b += '/// %s\n' % it['doc']
            if it['k'] == 'class':
                bs = [x for x in (it['base'], it['base2']) if x and x in known and x != qname(it)]
                if len(bs) == 2:
                    if anc(bs[0]) & anc(bs[1]): bs = bs[:1]
                bases[qname(it)] = bs
                b += '%s %s' % ('struct' if it['struct'] else 'class', it['name'])
                if bs: b += ' : ' + ', '.join('public ::' + x for x in bs)
                b += ' {\npublic:\n\t%s() {}\n' % it['name']
                b += _final_dtor(it)
                todo = sorted({m for x in bs for m in pure.get(x, ())})
                for m in todo: b += '\tint %s(int) override;\n' % m
                if it.get('abs'): pure[qname(it)] = [it['abs']]; b += '\tvirtual int %s(int) = 0;\n' % it['abs']
                for j in range(it.get('fat') or 0): b += '\t/// %s\n\tint fat_%d(int a, double b_%d = %d.5) const;\n' % ('documentation of a member with the number %d and a rather long text; ' % j * (1 + j % 5), j, j, j)
                if it['ctors'] > 0: b += '\texplicit %s(int v) {}\n' % it['name']
                if it['ctors'] > 1: b += '\t%s(double a, int b = 2) {}\n' % it['name']
                if it['nested_enum']: b += '\tenum Kind { k_one, k_two };\n'
                if it['nested_class']: b += '\tstruct Inner { int v; int get() const; };\n'
                if it['ops']: b += '\tbool operator==(%s const &) const;\n\tint operator[](int i) const;\n' % it['name']
                for m in it['methods']:
                    r = _t(m['ret'], known)
                    pre = 'static ' if m['s'] else ('virtual ' if m['v'] else '')
                    if m.get('prot'): b += 'protected:\n'
                    b += '\t%s%s %s(%s)%s;\n' % (pre, r, m['n'], _a(m['args'], known), ' const' if m['c'] and not m['s'] else '')
                    if m.get('prot'): b += 'public:\n'
                    if m['ov']: b += '\tint %s(char const *q, char z, char const *w, char y, char x);\n' % m['n']
                for f in it['fields']: b += '\t%s %s;\n' % (f['t'], f['n'])
                b += '};\n'
                if it.get('ins'): b += 'std::ostream &operator<<(std::ostream &, %s const &);\n' % it['name']; ios = True
                known[qname(it)] = h['path']
            elif it['k'] == 'misc': b += MISC[it['i'] % len(MISC)].replace('@', it['name']) + '\n'
            elif it['k'] == 'mixin' and it.get('two'): b += 'template<class A, class B> struct %s : public A, public B { int z; virtual int mixed(int) { return z; } };\n' % it['name']; known[qname(it)] = h['path']; two.add(qname(it))
            elif it['k'] == 'mixin': b += 'template<class B> struct %s : public B { int z; virtual int mixed(int) { return z; } };\n' % it['name']; known[qname(it)] = h['path']
            elif it['k'] == 'mixuse':
                if it['mix'] in two:
                    if it['q'] in known and it.get('q2') in known and not anc(it['q']) & anc(it['q2']): b += 'inline unsigned long %s(::%s< ::%s, ::%s > const &m) { return sizeof(m); }\n' % (it['name'], it['mix'], it['q'], it['q2'])
                elif it['mix'] in known and it['q'] in known: b += 'inline unsigned long %s(::%s< ::%s > const &m) { return sizeof(m); }\n' % (it['name'], it['mix'], it['q'])
            elif it['k'] == 'raw':
                if all(x in known for x in it['need']): b += it['text'].replace('@', it['name']) + '\n'
            elif it['k'] == 'enum':
                b += 'enum %s%s { %s };\n' % ('class ' if it['scoped'] else '', it['name'], ', '.join('%s_%d' % (it['name'].lower(), i) for i in range(it['n'])))
                known[qname(it)] = h['path']
            elif it['k'] == 'func':
                nm = it['name']
                if nm == 'ovl':
                    b += 'struct %s_tag {};\n%s %s(%s);\n' % (it['u'], _t(it['ret'], known), nm, ', '.join(x for x in [it['u'] + '_tag', _a({'a': it['args']['a'], 'd': 0}, known)] if x))
                else: b += '%s %s(%s);\n' % (_t(it['ret'], known), nm, _a(it['args'], known))
            elif it['k'] == 'tmpl':
                b += 'template <typename A> struct %s { A value; A get() const { return value; } void set(A a) { value = a; } virtual void touch(A) {} virtual ~%s() {} };\n' % (it['name'], it['name'])
                for i, p in enumerate(it['inst']): b += 'void %s_%d(%s<%s> const &);\n' % (it['fn'], i, it['name'], p)
            b += '}' * len(ns) + '\n'
            body += b
        pre = '#pragma once\n'
        if proj['stl']: pre += '#include <string>\n#include <vector>\n#include <map>\n#include <set>\n#include <memory>\n#include <utility>\n'
        elif ios: pre += '#include <iosfwd>\n'
        for p in sorted(inc): pre += '#include <%s>\n' % p
        files[h['path']] = pre + body
    main = ''
    for it in proj.get('main') or []:
        ns = it['ns'].split('::') if it['ns'] else []
        main += ''.join('namespace %s { ' % x for x in ns) + '\n' + MISC[it['i'] % len(MISC)].replace('@', it['name']) + '\n' + '}' * len(ns) + '\n'
    files['all.hpp'] = ''.join('#include %s\n' % (('"%s"' if h['quote'] else '<%s>') % (h.get('spell', '') + h['path'])) for h in proj['headers']) + main
    return files


def render_cfg(proj):
    c = proj.get('cfg')
    if not c: return None
    nl = '\r\n' if c.get('crlf') else '\n'
    s = nl.join(c['lines'])
    return s if c.get('nonl') else s + nl


LAYOUTS = ['hier', 'hier', 'hier', 'flat', 'flat', 'single']


def new_options(rng, layout=None):
    o = {'layout': layout or rng.choice(LAYOUTS), 'max': rng.choice([None, 1, 1, 60, 300, 700, 1500, 4000, 16384, 1000000]), 'root': rng.choice(['m', 'pkg', 'demo', 'Root_1']), 'flags': []}
    for f, p in (('--annotate-includes', .15), ('--skip-line-number', .2), ('--trace', .08), ('-v', .15), ('--annotate-functions', .1), ('--include-pybind11-stl', .05)):
        if rng.random() < p: o['flags'].append(f)
    return o


def mutate(rng, proj):
    """a small edit, as a developer would make between two runs"""
    p = copy.deepcopy(proj)
    for _ in range(20):
        x = rng.random()
        h = rng.choice(p['headers'])
        cl = [i for i in h['items'] if i['k'] == 'class']
        if x < .25 and cl:
            c = rng.choice(cl); c['fields'].append({'n': 'nf%d' % rng.randrange(10 ** 6), 't': 'int', 's': False}); break
        if x < .4 and cl:
            c = rng.choice(cl)
            c['methods'].append({'n': 'nm%d' % rng.randrange(10 ** 6), 'ret': {'t': 'prim', 'q': 'int', 'm': ''}, 'args': {'a': [], 'd': 0}, 'v': rng.random() < .5, 'pv': False, 'c': False, 's': False, 'ov': False}); break
        if x < .5 and cl:
            c = rng.choice(cl)
            if c['methods']: c['methods'].pop(rng.randrange(len(c['methods']))); break
        if x < .6 and len(h['items']) > 1:
            h['items'].pop(rng.randrange(len(h['items']))); break
        if x < .72:
            h['items'].append({'k': 'func', 'ns': h['items'][0]['ns'], 'name': 'nf%d' % rng.randrange(10 ** 6), 'ret': {'t': 'prim', 'q': 'int', 'm': ''}, 'args': {'a': [], 'd': 0}, 'doc': None, 'u': 'u'}); break
        if x < .8:
            it = rng.choice(h['items'])
            if 'doc' in it: it['doc'] = 'edited %d' % rng.randrange(1000); break
        if x < .88 and len(p['headers']) > 1:
            p['headers'].pop(rng.randrange(len(p['headers']))); break
        if x < .94 and cl:  # same-length change: a renamed field
            c = rng.choice(cl)
            if c['fields']:
                f = rng.choice(c['fields']); f['n'] = ('g' if f['n'][0] == 'f' else 'f') + f['n'][1:]; break
        if len(h['items']) > 1 and all(i['k'] in ('func', 'enum') for i in h['items']):
            rng.shuffle(h['items']); break
    return p


def shrink_project(proj):
    """smaller candidates"""
    if proj.get('main'):
        p = copy.deepcopy(proj); p.pop('main'); yield p
    n = len(proj['headers'])
    for i in range(n):
        if n > 1:
            p = copy.deepcopy(proj); p['headers'].pop(i); yield p
    for i in range(n):
        k = len(proj['headers'][i]['items'])
        for j in range(k):
            if k > 1:
                p = copy.deepcopy(proj); p['headers'][i]['items'].pop(j); yield p
    for i in range(n):
        for j, it in enumerate(proj['headers'][i]['items']):
            if it['k'] == 'class' and (it['methods'] or it['fields']):
                p = copy.deepcopy(proj); q = p['headers'][i]['items'][j]; q['methods'] = []; q['fields'] = []; q['ctors'] = 0; q['nested_enum'] = q['nested_class'] = q['ops'] = False; q['doc'] = None; q.pop('fat', None); q.pop('ins', None)
                yield p
    if proj.get('cfg'):
        L = proj['cfg']['lines']
        if len(L) > 4:
            p = copy.deepcopy(proj); p['cfg']['lines'] = [l for l in L if not l.startswith('#')]
            if len(p['cfg']['lines']) < len(L): yield p
        for i in range(min(len(L), 12)):
            if not L[i].startswith('+namespace'):
                p = copy.deepcopy(proj); p['cfg']['lines'].pop(i); yield p
