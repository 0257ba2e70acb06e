"""setup_cmd: nothing to build; makes sure the checker modules load."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import pwcheck.core, pwcheck.sweep, pwcheck.entries  # noqa
print('ok')
