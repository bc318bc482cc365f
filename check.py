#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--only rule]"""
import importlib
import os
import sys
import warnings

warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    a = sys.argv[1:]
    tier = only = None
    if '--tier' in a:
        i = a.index('--tier')
        tier = a[i + 1]
        del a[i:i + 2]
    if '--only' in a:
        i = a.index('--only')
        only = a[i + 1]
        del a[i:i + 2]
    if '--setup' in a:
        import ast
        for d in ('sa', 'rules', 'specs'):
            for f in sorted(os.listdir(os.path.join(HERE, d))):
                if f.endswith('.py'):
                    ast.parse(open(os.path.join(HERE, d, f)).read())
        return 0
    pid = a[0]
    m = importlib.import_module('rules.' + pid.lower())
    from sa import runner
    from rules.explain import EXPL
    return runner.main(pid, m.RULES, EXPL[pid], getattr(m, 'ASSUME', ()), tier=tier, only=only)


if __name__ == '__main__':
    sys.exit(main())
