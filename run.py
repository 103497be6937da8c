#!/usr/bin/env python3
"""Entry point of every check:  python3 run.py C01 [--replay FILE] [--tier quick|thorough] [--jobs N] [--only KIND]"""
import os
import sys

VENV = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    env = {'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1',
           'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1'}
    if os.environ.get('MM_VERIF_STARTED') != '1':
        e = dict(os.environ)
        e.update(env)
        e['MM_VERIF_STARTED'] = '1'
        exe = VENV if os.path.exists(VENV) else sys.executable
        os.execve(exe, [exe, os.path.join(HERE, 'run.py')] + sys.argv[1:], e)
    sys.path.insert(0, HERE)
    from mon import core
    sys.exit(core.main(sys.argv[1:]))


if __name__ == '__main__':
    main()
