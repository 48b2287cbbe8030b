import importlib
import os
import sys

sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))

from mc import core  # noqa


def load(pid):
    return importlib.import_module('mc.checks.' + pid.lower()).check


def main(argv):
    if argv[0] == 'replay':
        return core.replay(argv[1], load)
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    try:
        check = load(pid)
    except BaseException:
        # The package can't even be imported as the harness uses its public
        # interface: nothing the property promises is available.
        import traceback
        os.makedirs(core.REPLAYS, exist_ok=True)
        path = os.path.join(core.REPLAYS, pid + '-import.txt')
        with open(path, 'w') as f:
            f.write(traceback.format_exc())
        traceback.print_exc()
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 1 if core.explore(check, tier) else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
