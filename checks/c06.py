"""C06: matrix products and transposes."""
import t3f
from engine.harness import Case
from engine.sym import TT, ETT, Dense, ein, prod
from checks import grid
from checks.c04 import out_batch, COMBOS

# (rows, inner, cols, ranks of a, ranks of b)
PRODUCTS = [
    ((2,), (3,), (2,), (1, 1), (1, 1)),
    ((2, 3), (2, 1), (3, 2), (1, 2, 1), (1, 3, 1)),
    ((1, 2), (2, 3), (2, 1), (1, 1, 1), (1, 2, 1)),
    ((2, 1, 2), (1, 2, 2), (2, 2, 1), (1, 2, 1, 1), (1, 1, 2, 1)),
    ((2, 2), (2, 2), (2, 2), (1, 2, 1), (1, 2, 1)),
]
MORE = [
    ((1,), (1,), (4,), (1, 1), (1, 1)),
    ((2, 1, 2), (2, 2, 1), (1, 2, 2), (1, 2, 2, 1), (1, 3, 2, 1)),
    ((2, 1, 1, 2), (1, 2, 2, 1), (2, 1, 2, 1), (1, 2, 1, 2, 1), (1, 1, 2, 1, 1)),
    ((1, 2, 1, 1, 2), (2, 1, 1, 2, 1), (1, 2, 2, 1, 1), (1, 2, 1, 2, 2, 1), (1, 1, 2, 1, 2, 1)),
    ((3, 2), (2, 3), (1, 4), (1, 3, 1), (1, 1, 1)),
]


def bmm(x, y):
  """Product of stacks of matrices; a stack of one is used for all."""
  if x.ndim == 2 and y.ndim == 2:
    return ein('ij,jk->ik', x, y)
  import numpy as np
  n = max(x.shape[0] if x.ndim == 3 else 1, y.shape[0] if y.ndim == 3 else 1)
  gx = lambda i: x if x.ndim == 2 else x[i if x.shape[0] > 1 else 0]
  gy = lambda i: y if y.ndim == 2 else y[i if y.shape[0] > 1 else 0]
  return np.stack([ein('ij,jk->ik', gx(i), gy(i)) for i in range(n)])


def tt_tt(p, ba, bb, dtype='float64', **kw):
  m, k, n, ra, rb = p
  a = TT('a', m, ra, cols=k, batch=ba, dtype=dtype, **kw)
  b = TT('b', k, rb, cols=n, batch=bb, dtype=dtype, **kw)
  return Case('matmul %s @ %s' % (grid.label(a), grid.label(b)), [a, b], lambda x, y: t3f.matmul(x, y),
              lambda x, y: ETT(bmm(x.dense(), y.dense()), m, n, out_batch(a, b)))


def tt_dense(a, q, unknown=()):
  b = Dense('b', (prod(a.cols), q), a.dtype, unknown=unknown, sparse=a.sparse)
  return Case('tt@dense %s, %d cols%s' % (grid.label(a), q, ' ?%s' % (unknown,) if unknown else ''), [a, b],
              lambda x, y: t3f.matmul(x, y), lambda x, y: ein('ij,jk->ik', x.dense(), y))


def dense_tt(a, q, unknown=()):
  b = Dense('b', (q, prod(a.modes)), a.dtype, unknown=unknown, sparse=a.sparse)
  return Case('dense@tt %s, %d rows%s' % (grid.label(a), q, ' ?%s' % (unknown,) if unknown else ''), [a, b],
              lambda x, y: t3f.matmul(y, x), lambda x, y: ein('ij,jk->ik', y, x.dense()))


def cases(tier):
  out = []
  for p in PRODUCTS + (MORE if tier == 'thorough' else MORE[:4]):
    for ba, bb in COMBOS:
      out.append(tt_tt(p, ba, bb))
  for ba, bb in ((None, None), (2, None), (2, 2)):
    out.append(tt_tt(PRODUCTS[1], ba, bb, 'float32'))
  ms = grid.matrices('a', 'thorough')
  for a in ms + [TT('a', (2, 1, 2), (1, 2, 3, 1), cols=(2, 3, 1), dtype='float32')]:
    for q in (1, 2, 3):
      out += [tt_dense(a, q), dense_tt(a, q)]
  for a in ms[1:4]:
    out += [tt_dense(a, 2, (1,)), dense_tt(a, 2, (0,)), dense_tt(a, 1, (0,)), tt_dense(a, 1, (1,))]
  for t in [TT('a', m.modes, m.ranks, cols=m.cols, batch=b, dtype=dt) for m in ms
            for b in (None, 1, 2, 3) for dt in ('float64', 'float32') if dt == 'float64' or b != 3]:
    out.append(Case('transpose ' + grid.label(t), [t], lambda a: t3f.transpose(a),
                    lambda x: ETT(x.dense().swapaxes(-1, -2), x.cols, x.modes, x.batch)))
  for t in ms[1:4]:
    out.append(Case('transpose twice ' + grid.label(t), [t], lambda a: t3f.transpose(t3f.transpose(a)),
                    lambda x: ETT(x.dense(), x.modes, x.cols, x.batch)))
    out.append(Case('a a^T ' + grid.label(t), [t], lambda a: t3f.matmul(a, t3f.transpose(a)),
                    lambda x: ETT(ein('ij,kj->ik', x.dense(), x.dense()), x.modes, x.modes)))
  # large ranks, modes and batches
  wide = [((2, 3), (9, 2), (2, 10), (1, 3, 1), (1, 4, 1)), ((2, 2), (2, 2), (2, 2), (1, 9, 1), (1, 10, 1))]
  for p in wide:
    out.append(tt_tt(p, None, None, sparse=6))
  out.append(tt_tt(PRODUCTS[1], 7, 7, sparse=10))
  out.append(tt_tt(PRODUCTS[1], 9, None, sparse=10))
  w = TT('a', (3, 9), (1, 12, 1), cols=(10, 2), sparse=8)
  out += [tt_dense(w, 5), dense_tt(w, 5), tt_dense(w, 33), dense_tt(w, 33)]
  w = TT('a', (2,) * 6, 2, cols=(1, 2, 1, 2, 1, 1), sparse=3)
  out += [tt_dense(w, 2), dense_tt(w, 2)]
  return out
