"""Nothing to build: checks that the interpreter and lark are there."""
import sys
import lark  # noqa
assert sys.version_info >= (3, 10)
print("ok", sys.version.split()[0], "lark", lark.__version__)
