import importlib
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..'))
import vlib  # noqa

if __name__ == '__main__':
    pid = sys.argv[1]
    mod = importlib.import_module('checks.' + pid.lower())
    rc = vlib.main(pid, getattr(mod, 'LEVEL', 'model_checking'), mod.run)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
