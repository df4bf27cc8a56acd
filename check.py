#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--replay FILE]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
sys.dont_write_bytecode = True
if os.environ.get('KV_REEXEC') != '1' and os.path.exists(PY) and os.path.realpath(sys.prefix) != '/opt/venv':
    os.environ['KV_REEXEC'] = '1'
    os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, HERE)
from kv import engine  # noqa: E402

sys.exit(engine.main(sys.argv[1:]))
