#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vf"))
import runner, specs
sys.exit(runner.main(specs.SPECS))
