"""Checks that the solver, TensorFlow and the library under test load."""
import os
import sys

os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('CUDA_VISIBLE_DEVICES', '-1')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import numpy  # noqa: E402,F401
import tensorflow as tf  # noqa: E402
from engine.z3conv import z3  # noqa: E402

x = z3.Real('x')
s = z3.Solver()
s.add(x * x < 0)
assert str(s.check()) == 'unsat'
print('tensorflow', tf.__version__, 'z3', z3.get_version_string())
