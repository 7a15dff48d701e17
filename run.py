"""Entry point: run.py Cnn [quick|thorough|replay] [...]"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from lib import pbt  # noqa

sys.path.insert(0, pbt.REPO)
sys.setrecursionlimit(1000)


def main():
    pid = sys.argv[1]
    import asn1crypto
    if pid == '--setup':
        # nothing to build: the checks import /repo's sources directly
        print('python', sys.version.split()[0], 'asn1crypto', asn1crypto.__file__)
        return 0
    if os.path.dirname(os.path.dirname(os.path.abspath(asn1crypto.__file__))) != os.path.realpath(pbt.REPO):
        sys.stderr.write('HARNESS ERROR: asn1crypto was imported from %s\n' % asn1crypto.__file__)
        return 3
    mod = importlib.import_module('checks.' + pid.lower())
    return pbt.main(mod.check, sys.argv[1:])


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 4
    sys.stdout.flush()
    os._exit(rc) if False else sys.exit(rc)
