import glob
import os
import sys

from . import compat  # noqa: F401  (before phasor)
from . import harness


def main(argv):
    prop, tier = argv[0], argv[1]
    replay = argv[argv.index('--replay') + 1] if '--replay' in argv else None
    assert tier in ('quick', 'thorough'), tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mods = glob.glob(os.path.join(harness.HERE, 'checks', prop + '_*.py'))
    assert len(mods) == 1, mods
    module = 'checks.' + os.path.basename(mods[0])[:-3]
    import phasor
    src = os.path.realpath(os.path.dirname(phasor.__file__))
    if not src.startswith(harness.REPO + os.sep):
        print('wrong phasor under test: ' + src)
        return 3
    try:
        return harness.main(module, prop, tier, seed, replay)
    except (ImportError, SyntaxError, AttributeError, NameError, TypeError) as E:
        # the code under test cannot even be imported through its public modules
        if harness.in_repo(E.__traceback__):
            os.makedirs(os.path.join(harness.HERE, 'evidence'), exist_ok=True)
            print('import of the code under test failed: {0!r}'.format(E))
            print('VIOLATION property={0} replay=import'.format(prop))
            return 1
        raise


sys.exit(main(sys.argv[1:]))
