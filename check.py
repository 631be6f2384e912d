#!/usr/bin/env python3
"""Entry point: see dst/driver.py."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from dst.driver import main     # noqa
sys.exit(main(sys.argv[1:]))
