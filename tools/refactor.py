#!/usr/bin/env python3
"""Are the checks quiet on edits that keep the behaviour?

    tools/refactor.py SPEC DIR     applies tools/refactor/SPEC.py to the copy DIR of /repo
"""
import importlib.util
import os
import sys


def main(spec, target):
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'refactor', spec + '.py')
    module_spec = importlib.util.spec_from_file_location('edits', path)
    module = importlib.util.module_from_spec(module_spec)
    module_spec.loader.exec_module(module)
    done = 0
    for name, old, new in module.EDITS:
        filename = os.path.join(target, name)
        text = open(filename).read()
        if text.count(old) != 1:
            print('NOT APPLIED (%d times)' % text.count(old), name, repr(old[:70]))
            continue
        open(filename, 'w').write(text.replace(old, new))
        done += 1
    print(done, 'of', len(module.EDITS), 'edits applied')


if __name__ == '__main__':
    main(*sys.argv[1:])
