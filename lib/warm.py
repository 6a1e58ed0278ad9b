"""Warm the build cache (optional: every check builds what it needs itself)."""
import vf
import bits
try:
    vf.parallel([vf.cpp_lib] + bits.BUILDS, n=4)
except vf.MachineryError as e:
    vf.log(e)
print("setup done")
