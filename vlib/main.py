import sys
import os
import glob


def main():
    ident = sys.argv[1]
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    found = glob.glob(os.path.join(here, 'checks', ident.lower() + '_*.py'))
    if len(found) != 1:
        print('no check for %s' % ident)
        return 3
    from . import core
    return core.run('checks.' + os.path.basename(found[0])[:-3], sys.argv[2:])


if __name__ == '__main__':
    sys.exit(main())
