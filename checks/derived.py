"""Configurations of the other checks under different claims."""
import importlib
from engine.harness import Case
from engine.sym import TT, Dense


def size(c):
  """Work of a configuration, for leaving out the expensive ones."""
  n = 0
  for a in c.args:
    if isinstance(a, TT):
      for s in a.shapes():
        k = 1
        for x in s:
          k *= x
        n += k
  return n


def kind(c, fine=False):
  """Configurations that differ only in sizes are of one kind."""
  key = []
  for a in c.args:
    if isinstance(a, TT):
      b = None if a.batch is None else min(a.batch, 2) if fine else 2
      key.append((a.cols is not None, b, min(len(a.modes), 3 if fine else 2), a.dtype if fine else ''))
    else:
      key.append(type(a).__name__)
  return (c.name.split()[0], tuple(key))


def pick(src, words, n, usable, fine=False, tier='quick'):
  """About n configurations of every kind, spread over the list."""
  mod = importlib.import_module('checks.' + src)
  kinds = {}
  for c in mod.cases(tier):
    if isinstance(c, Case) and usable(c) and (words is None or c.name.split()[0] in words):
      kinds.setdefault(kind(c, fine), []).append(c)
  out = []
  for cs in kinds.values():
    for i in sorted({(2 * i + 1) * len(cs) // (2 * n) for i in range(n)}):
      out.append(cs[i])
  return out
