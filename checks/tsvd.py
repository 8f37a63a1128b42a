"""Reference for truncation: dropped energy, in exact terms and in numbers."""
import numpy as np
from engine import terms as T
from engine.terms import Unsupported
from engine.sym import norm2


def svds(S, count):
  a = [x for x in S.ctx.apps if x.kind == 'svd']
  if len(a) != count:
    raise Unsupported('%d SVD calls instead of %d' % (len(a), count))
  return a


def energies(S, ranks, order, batch=None):
  """Sum of squares of the singular values dropped, per batch element.

  order: list of rank positions in the order in which the SVDs are made.
  """
  B = batch or 1
  apps = svds(S, len(order) * B)
  out = [0] * B
  for i, k in enumerate(order):
    for b in range(B):
      s = apps[i * B + b].outs[0]
      for x in s[ranks[k]:]:
        out[b] = T.add(out[b], T.mul(x, x))
  return out


def zero_tail(S, ranks, order, batch=None):
  """Equations s_j = 0 beyond the actual rank."""
  B = batch or 1
  apps = svds(S, len(order) * B)
  eqs = []
  for i, k in enumerate(order):
    for b in range(B):
      s = apps[i * B + b].outs[0]
      eqs += [('tail', x, 0) for x in s[ranks[k]:]]
  return eqs


def at_least(ranks, lim, modes):
  """The ranks, raised to those that the limits allow."""
  c = list(lim)
  for k in list(range(1, len(modes))) + list(range(len(modes) - 1, 0, -1)):
    c[k] = min(c[k], c[k - 1] * modes[k - 1], c[k + 1] * modes[k])
  return [max(p, q) for p, q in zip(ranks, c)]


def numeric_energy(x, ranks, direction):
  """Energy dropped by successive truncated SVDs of the array x (modes)."""
  n = x.shape
  d = len(n)
  e = 0.0
  if direction == 'right':
    x = np.transpose(x, list(range(d))[::-1])
    ranks = list(ranks)[::-1]
    n = n[::-1]
  m = x.reshape(1, -1)
  for k in range(d - 1):
    m = m.reshape(m.shape[0] * n[k], -1)
    u, s, v = np.linalg.svd(m, full_matrices=False)
    r = ranks[k + 1]
    e += float((s[r:] ** 2).sum())
    m = s[:r, None] * v[:r]
  return e


def error2(a, b):
  return norm2(np.asarray(a) - np.asarray(b))
