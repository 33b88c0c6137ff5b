#!/usr/bin/env python3
"""Entry point: run_check.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE] [--jobs N]

Exit 0: property held on everything explored; 1: violation (VIOLATION line printed);
2: the check itself could not do its work (infrastructure), no answer.
"""
import os
import sys

PY = '/opt/venv/bin/python'
if not sys.prefix.startswith('/opt/venv') and os.path.exists(PY) \
        and not os.environ.get('VERIF_REEXEC'):
    os.environ['VERIF_REEXEC'] = '1'
    os.execv(PY, [PY, '-B'] + sys.argv)

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
import engine  # noqa: E402

if __name__ == '__main__':
    sys.exit(engine.main(sys.argv[1:]))
