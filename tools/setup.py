"""setup_cmd: nothing is built ahead of a check; verify that the interpreters and solvers a check needs are there."""
import os, sys
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
import vc.engine, z3, cvc5, numpy, pyarrow   # noqa
print("z3", z3.get_version_string(), "cvc5", cvc5.__version__, "numpy", numpy.__version__, "pyarrow", pyarrow.__version__)
