#!/usr/bin/env python3
"""python3 run.py <property> [quick|thorough]  |  python3 run.py --setup"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import check, front

if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        front.build_tool()
        sys.exit(0)
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 << 20)
    rc = []
    t = threading.Thread(target=lambda: rc.append(check.main(sys.argv)))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
