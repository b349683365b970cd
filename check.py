#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
sys.dont_write_bytecode = True
import core
sys.modules['core'] = core
if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
