import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core  # noqa: E402


def load(pid):
    return importlib.import_module('vf.checks.' + pid.lower()).CHECK()


def main():
    args = sys.argv[1:]
    core.setup_imports()
    if args[0] == 'replay':
        return core.replay(load(json.load(open(args[1]))['property']), args[1])
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return core.main(load(args[0]), tier, seed)


if __name__ == '__main__':
    sys.exit(main())
