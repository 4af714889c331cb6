import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    from mc import core
    module = importlib.import_module('mc.' + prop.lower())
    sys.exit(core.run(prop, module, tier))


if __name__ == '__main__':
    main()
