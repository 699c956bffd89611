#!/usr/bin/env python3
"""Entry point: python3 check.py <PROPERTY> [--tier quick|thorough]."""
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa.report import main  # noqa: E402

if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.exit(rc[0] if rc else 2)
