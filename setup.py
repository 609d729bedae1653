"""Nothing to build: checks that the interpreter, the solver and the source are there."""
import sys

sys.dont_write_bytecode = True
import concrete  # noqa: E402

concrete.setup()
import z3  # noqa: E402
import opyenxes  # noqa: E402

print("z3", z3.get_version_string(), "opyenxes", opyenxes.__file__)
