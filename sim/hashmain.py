"""hashmain.py SOCKET FD: one fork server of hashproc."""
import os
import sys
import gc
import importlib
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
warnings.simplefilter('ignore')
# another heap layout: objects of many sizes kept alive before anything else is imported
KEEP = [bytearray(37 * k % 501) for k in range(int(os.environ.get('VERIF_SHIFT', '0')))]


def main():
    from sim import core
    core._scratch_root = os.path.dirname(sys.argv[1])
    if os.environ.get('VERIF_REPO'):
        sys.path.insert(0, os.environ['VERIF_REPO'])
    from sim import seams
    seams.install()
    import flavio                                    # noqa
    sys.modules['sim.hashmain'] = sys.modules['__main__']
    importlib.import_module('sim.props.c09')
    seams.after_import()
    from sim import hashproc
    gc.collect()
    gc.freeze()
    hashproc.serve(sys.argv[1], int(sys.argv[2]))


main()
