"""Checks that the framework can run here; builds nothing"""

import sys

from . import universe


def main():
    if sys.version_info < (3, 8):
        print('Python 3.8 or newer is needed')
        return 1
    print('%d modules of /repo compile' % universe.prepare('/repo'))
    return 0


if __name__ == '__main__':
    sys.exit(main())
