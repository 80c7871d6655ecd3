#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property>: decide one property of /repo's current tree."""
import sys
sys.path.insert(0, __import__("os").path.dirname(
    __import__("os").path.abspath(__file__)))
sys.dont_write_bytecode = True
from cxxvc.driver import main
sys.exit(main(sys.argv[1:]))
