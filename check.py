"""python3-vt check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness.driver import main
if __name__ == "__main__":
    sys.exit(main())
