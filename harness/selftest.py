"""setup: nothing to build; shows that the library and the harness can be loaded here."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
core.load_library()
import lib
assert lib.G("C4").order() == 4
print("ready")
