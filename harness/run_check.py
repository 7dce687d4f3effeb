#!/opt/venv/bin/python
"""
run_check.py ID [--tier quick|thorough] [--seed N] [--cases N] [--shards N]
run_check.py ID --replay FILE
"""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from harness import core, env  # noqa: E402


def main():
    p = argparse.ArgumentParser()
    p.add_argument('id')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--seed', type=int,
                   default=int(os.environ.get('VERIF_SEED', '1') or 1))
    p.add_argument('--cases', type=int)
    p.add_argument('--shards', type=int)
    p.add_argument('--replay')
    args = p.parse_args()
    env.setup()
    try:
        module = importlib.import_module('harness.props.' + args.id.lower())
        if args.replay:
            return core.replay(module, args.replay)
        return core.execute(module, args.tier, args.seed, args.shards,
                            args.cases)
    except Exception:
        import traceback
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
