"""python3-vt -m pbt.run C01 [--tier quick|thorough]  |  --replay FILE"""
import argparse
import os
import sys


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop', nargs='?')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    p.add_argument('--scale', type=float, default=1.0)
    p.add_argument('--shard', type=int)
    p.add_argument('--out')
    p.add_argument('--replay')
    a = p.parse_args()
    from pbt import core

    if a.replay:
        return core.run_replay(a.replay)
    if a.shard is not None:
        core.run_shard(a.prop, a.tier, a.seed, a.shard, a.out, a.scale)
        return 0
    return core.run_check(a.prop, a.tier, a.seed, a.scale)


if __name__ == '__main__':
    sys.exit(main())
