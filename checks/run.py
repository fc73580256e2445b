import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, '..', 'lib'), HERE]

import py2loader
py2loader.install()
import vlib

if __name__ == '__main__':
    prop = sys.argv[1]
    try:
        module = importlib.import_module(prop.lower())
    except Exception:
        # The tree under test does not even load: the check cannot answer.
        import traceback
        traceback.print_exc()
        sys.exit(3)
    sys.exit(vlib.main(prop, module, sys.argv[2:]))
