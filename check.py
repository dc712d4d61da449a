#!/usr/bin/env python3-vt
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
sys.setrecursionlimit(20000)
import runner
if __name__ == '__main__':
    sys.exit(runner.setup() if sys.argv[1] == '--setup' else runner.main(sys.argv[1]))
