#!/opt/venv/bin/python
"""check.py run <property> [--tier quick|thorough] [--runs N] [--seed S]
check.py replay <file>
check.py list
check.py selftest [property ...]

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION
line: it is broken.  Exit 2: the harness failed (never a verdict)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from dsim import runner  # noqa

if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:]))
