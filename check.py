#!/usr/bin/env python3
import os, sys, threading
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
threading.stack_size(512 * 1024 * 1024)
rc = []
def go():
    from rules import REGISTRY
    import runner
    rc.append(runner.main(REGISTRY))
t = threading.Thread(target=go)
t.start()
t.join()
sys.stdout.flush()
sys.exit(rc[0] if rc else 2)
