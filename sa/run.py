"""Command line: python3 -m sa.run C01 [--quick|--thorough]"""
import importlib
import sys


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = 'thorough' if '--thorough' in a else 'quick'
    m = importlib.import_module('sa.checks.' + pid.lower())
    return m.main(tier)


if __name__ == '__main__':
    sys.exit(main())
