"""python3 checks/run.py <property> [--tier quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, registry
common.run(lambda: registry.run(sys.argv[1]))
