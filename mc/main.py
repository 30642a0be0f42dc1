import os
import sys
import warnings
import traceback

warnings.simplefilter('ignore')
from . import core


def main():
    args = sys.argv[1:]
    try:
        core.import_subject()
        if args[0] == '--replay':
            return core.replay(args[1])
        tier = os.environ.get('VERIF_TIER') or 'quick'
        seed = int(os.environ.get('VERIF_SEED') or 0)
        return core.run_check(core.load(args[0]), tier, seed)
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
