"""Replays the counterexamples of a replay file, without the explorer."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    with open(sys.argv[1]) as f:
        data = json.load(f)
    from mc import core, terms
    module = importlib.import_module('mc.' + data['property'].lower())
    families = {fam.name: fam for tier in ('quick', 'thorough') for fam in module.families(tier)}
    failed = 0
    for item in data['violations']:
        case = terms.ev(item['case'])
        problem = families[item['family']].judge(core.Ctx(), case)
        if problem is None:
            print('ok      ', item['case'])
        else:
            failed += 1
            print('VIOLATED', item['case'])
            print('   %s\n   expected %s\n   got      %s' % (
                problem.what, repr(problem.expected), repr(problem.got)))
    sys.exit(1 if failed else 0)


if __name__ == '__main__':
    main()
