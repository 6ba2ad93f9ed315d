#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property from the sources under /repo."""
import os
import sys
import threading

os.environ.setdefault('PYTHONHASHSEED', '0')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)


def go(out):
    from sa.report import main
    out.append(main(sys.argv))


if __name__ == '__main__':
    out = []
    t = threading.Thread(target=go, args=(out,))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 2)
