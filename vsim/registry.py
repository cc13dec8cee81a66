import importlib
MODULES = ['props_binder', 'props_scripts', 'props_threads']


def all_props():
    r = {}
    for m in MODULES:
        mod = importlib.import_module('vsim.' + m)
        for c in mod.PROPS: r[c.id] = c
    return r


def get(id): return all_props()[id]()
