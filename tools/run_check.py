#!/usr/bin/env python3
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "checks"))
sys.dont_write_bytecode = True
import vrun  # noqa: E402
import registry  # noqa: E402

sys.exit(vrun.main(registry.CHECKS))
