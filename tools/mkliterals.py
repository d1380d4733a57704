"""records the literals of the code, see lib.Dictionary; run after every change of /repo"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
json.dump(lib.count_literals(), open(os.path.join(lib.V, "tools", "literals.json"), "w"), indent=0, sort_keys=True)
