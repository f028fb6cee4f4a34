#!/usr/bin/env python3
"""check.py <property-id> [unit-name-filter...]   |   check.py --replay FILE"""
import os
import sys

VT = '/opt/veriftools/pyvenv/bin/python'
if os.path.exists(VT) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv') and not os.environ.get('PV_REEXEC'):
    os.environ['PV_REEXEC'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(VT, [VT] + sys.argv)
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pydv import runner

if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(runner.replay_file(sys.argv[2]))
    sys.exit(runner.main(sys.argv[1], sys.argv[2:]))
