#!/usr/bin/env python3
"""Decide one property:  run.py <ID> [quick|thorough]"""

import os
import sys
import time

T0 = time.time()
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path[:0] = [os.path.dirname(HERE), HERE]
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    import lib
    import props
    spec = props.PROPS.get(pid)
    if spec is None:
        print("unknown property %s" % pid)
        return 2
    return lib.main(pid, spec, tier, T0)


if __name__ == "__main__":
    sys.exit(main())
