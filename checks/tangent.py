"""Tangent space of the fixed-rank manifold at a TT object, in dense terms.

At a point x whose ranks are the ranks of its unfoldings the tangent space is
spanned by the tensors  left_k[:, a] (x) e_i (x) row_p(X_k)  where left_k is the
product of the cores before k and row_p(X_k) are rows of the unfolding of x
after mode k.
"""
import numpy as np
from engine.sym import chain, ein, prod


def flat_cores(v):
  """Cores with merged modes, shape (r, n, r')."""
  return [c.reshape(c.shape[0], -1, c.shape[-1]) for c in v.cores]


def merge(x, v):
  """Dense value of an object shaped like v, as an array over merged modes."""
  if not v.matrix:
    return x
  d = v.d
  x = x.reshape(tuple(v.modes) + tuple(v.cols))
  x = np.transpose(x, [q for k in range(d) for q in (k, d + k)])
  return x.reshape([a * b for a, b in zip(v.modes, v.cols)])


def frames(v):
  """For every core k: (left (N<, r), rows (P, N>)) spanning the tangents."""
  cs = flat_cores(v)
  n = [c.shape[1] for c in cs]
  d = len(cs)
  one = np.array([[1]], dtype=cs[0].dtype)
  X = chain(cs).reshape(-1)
  out = []
  for k in range(d):
    L = one if k == 0 else chain(cs[:k]).reshape(-1, cs[k].shape[0])
    R = one if k == d - 1 else X.reshape(prod(n[:k + 1]), -1)
    out.append((L, n[k], R))
  return out


def pairings(v, dense, core=None):
  """Inner products of a dense object with the spanning tangents."""
  y = merge(np.asarray(dense), v)
  res = []
  for k, (L, n, R) in enumerate(frames(v)):
    if core is not None and k != core:
      continue
    m = y.reshape(L.shape[0], n, R.shape[1])
    res.append(ein('pa,pib,rb->air', L, m, R).reshape(-1))
  return np.concatenate(res)


def basis(v):
  """Numeric orthonormal basis of the tangent space (columns)."""
  cs = flat_cores(v)
  cols = []
  for L, n, R in frames(v):
    cols.append(np.einsum('pa,ij,rb->pibajr', L, np.eye(n), R).reshape(
        L.shape[0] * n * R.shape[1], -1))
  m = np.concatenate(cols, axis=1)
  u, s, _ = np.linalg.svd(m, full_matrices=False)
  return u[:, s > 1e-9 * max(s.max(), 1e-30)]


def projected(v, dense):
  """Numeric orthogonal projection of a dense object, over merged modes."""
  q = basis(v)
  y = merge(np.asarray(dense, dtype=float), v)
  return (q @ (q.T @ y.reshape(-1))).reshape(y.shape)


def dim(v):
  r = v.ranks
  n = [c.shape[1] for c in flat_cores(v)]
  return sum(r[k] * n[k] * r[k + 1] for k in range(v.d)) - sum(x * x for x in r[1:-1])


def project_frames(left, right, dense):
  """Projection of a dense object given left- and right-orthogonal forms of
  the point: sum over cores of (left frame) x (identity) x (right frame) minus
  the parts counted twice."""
  us, vs = flat_cores(left), flat_cores(right)
  y = merge(np.asarray(dense), left)
  d = len(us)
  n = [c.shape[1] for c in us]
  one = np.array([[1]], dtype=us[0].dtype)
  L = [one] + [chain(us[:k]).reshape(prod(n[:k]), -1) for k in range(1, d)]
  R = [chain(vs[k:]).reshape(-1, prod(n[k:])) for k in range(1, d)] + [one]
  out = None
  for k in range(d):
    m = y.reshape(L[k].shape[0], n[k], R[k].shape[1])
    # part already covered by the left frame of the next core is removed
    c = ein('pa,pib,rb->air', L[k], m, R[k])
    if k < d - 1:
      u = us[k]
      g = ein('air,ais->sr', c, u)
      c = c - ein('ais,sr->air', u, g)
    t = ein('pa,air,rb->pib', L[k], c, R[k]).reshape(-1)
    out = t if out is None else out + t
  return out.reshape(y.shape)
