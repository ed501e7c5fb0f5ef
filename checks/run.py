import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness
pid = sys.argv[1]
mod = importlib.import_module('p_' + pid)
sys.exit(harness.main(mod.check, pid))
