import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.dont_write_bytecode = True
sys.path.append(os.path.join(HERE, 'vendor'))
if hasattr(sys, 'set_int_max_str_digits'):
    sys.set_int_max_str_digits(0)

from mc import core   # noqa

if __name__ == '__main__':
    rc = core.main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
