"""python3 -m vsim.check ID [--tier quick|thorough] [--seed N] [--replay FILE]"""
import sys, os, argparse


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1)); ap.add_argument('--replay'); ap.add_argument('--seeds', type=int)
    a = ap.parse_args()
    from . import engine, registry
    prop = registry.get(a.id)
    if a.seeds: prop.quick = prop.thorough = a.seeds
    if a.replay: return engine.replay(prop, a.replay)
    return engine.check(prop, a.tier, a.seed)


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
