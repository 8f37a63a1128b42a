"""C10: gathering, sparse inner products, splitting flat indices."""
import numpy as np
import tensorflow as tf
import t3f
from engine import terms as T
from engine.harness import Case
from engine.sym import TT, Dense, take, prod
from checks import grid


def pick(x, row):
  for i in row:
    x = take(x, i, 0)
  return np.asarray(x, dtype=object)[()] if np.asarray(x).dtype == object else np.asarray(x)[()]


def gather(t, lead, kind='int32', unknown=()):
  sizes = ((t.batch,) if t.batch is not None else ()) + t.modes
  ix = Dense('i', tuple(lead) + (len(sizes),), kind, lo=0, hi=np.array(sizes), unknown=unknown)

  def spec(a, i):
    d = a.dense()
    out = np.empty(i.shape[:-1], dtype=d.dtype)
    for k in np.ndindex(*i.shape[:-1]):
      out[k] = pick(d, list(i[k]))
    return out
  return Case('gather %s %s %s%s' % (list(lead), grid.label(t), kind, ' ?' if unknown else ''), [t, ix],
              lambda a, i: t3f.gather_nd(a, i), spec)


def sparse(t, nnz):
  shape = t.modes if t.cols is None else (prod(t.modes), prod(t.cols))
  ix = Dense('i', (nnz, len(shape)), 'int64', lo=0, hi=np.array(shape))
  vals = Dense('v', (nnz,), t.dtype)

  def prog(a, i, v):
    return t3f.flat_inner(a, tf.SparseTensor(i, v, shape))

  def spec(a, i, v):
    d = a.dense()
    r = 0
    for k in range(nnz):
      r = r + v[k] * pick(d, list(i[k]))
    return np.asarray(r)
  return Case('flat_inner(tt, sparse) nnz=%d %s' % (nnz, grid.label(t)), [t, ix, vals], prog, spec)


def digits(i, modes):
  out = []
  for n in reversed(modes):
    out.append(i % n)
    i //= n
  return out[::-1]


def huge(rows, cols, where):
  """Matrices with more rows or columns than 32 bit integers."""
  t = TT('a', rows, (1,) * (len(rows) + 1), cols=cols)
  vals = Dense('v', (len(where),))

  def prog(a, v):
    return t3f.flat_inner(a, tf.SparseTensor(np.array(where, np.int64), v, (prod(rows), prod(cols))))

  def spec(a, v):
    r = 0
    for k, (i, j) in enumerate(where):
      x = v[k]
      for c, p, q in zip(a.cores, digits(i, rows), digits(j, cols)):
        x = x * c[0, p, q, 0]
      r = r + x
    return np.asarray(r)
  return Case('flat_inner(tt, sparse) %d x %d at %s' % (prod(rows), prod(cols), where), [t, vals], prog, spec)


def unravel(shape, n, kind):
  from t3f import utils
  ix = Dense('i', (n,), kind, lo=0, hi=prod(shape))

  def spec(i):
    out = np.empty((n, len(shape)), dtype=i.dtype)
    for k in range(n):
      rest = i[k]
      for j in range(len(shape) - 1, -1, -1):
        if isinstance(rest, T.Term):
          out[k, j], rest = T.imod(rest, shape[j]), T.idiv(rest, shape[j])
        else:
          out[k, j], rest = rest % shape[j], rest // shape[j]
    return out
  return Case('unravel %s n=%d %s' % (shape, n, kind), [ix],
              lambda i: utils.unravel_index(i, tf.constant(shape, dtype=kind)), spec)


def cases(tier):
  out = []
  ts = [TT('a', (3,), (1, 1)), TT('a', (2, 3), (1, 2, 1)), TT('a', (2, 3, 2), (1, 2, 3, 1)),
        TT('a', (3, 1, 2), (1, 3, 2, 1)), TT('a', (2, 2, 3, 2), (1, 2, 3, 2, 1)), TT('a', (4, 5), (1, 1, 1)),
        TT('a', (1, 2, 1, 2, 3), (1, 1, 2, 1, 3, 1))]
  for t in ts:
    out += [gather(t, (1,)), gather(t, (2,), 'int64'), gather(t, (2, 2)), gather(t, (3,))]
    out += [gather(t, (2,), unknown=(0,)), gather(t, (1, 2, 1)), gather(t, (2, 1), 'int64'), gather(t, ())]
  for b in (1, 2, 3):
    for t in [TT('a', (3,), (1, 1), batch=b), TT('a', (2, 3), (1, 2, 1), batch=b),
              TT('a', (2, 1, 3), (1, 2, 2, 1), batch=b), TT('a', (2, 1, 2, 1, 3), (1, 2, 1, 2, 2, 1), batch=b)]:
      out += [gather(t, (1,)), gather(t, (2,), 'int64'), gather(t, (1, 2)), gather(t, (2,), unknown=(0,))]
  out += [gather(TT('a', (2, 3), (1, 2, 1), dtype='float32'), (2,)),
          gather(TT('a', (2, 3), (1, 2, 1), dtype='float32', batch=2), (2,)),
          gather(TT('a', (12, 11), (1, 9, 1), sparse=10), (2,)),
          gather(TT('a', (5, 4), (1, 2, 1), batch=6, sparse=8), (2,)),
          gather(TT('a', (2, 2, 2, 2, 2), 2), (1,)),
          gather(TT('a', (2, 3), (1, 2, 1)), (0,)),
          gather(TT('a', (2, 3), (1, 2, 1)), (17,))]
  ms = [TT('a', (2,), (1, 1), cols=(3,)), TT('a', (2, 3), (1, 2, 1), cols=(3, 2)),
        TT('a', (1, 2), (1, 3, 1), cols=(2, 1)), TT('a', (2, 2, 1), (1, 2, 2, 1), cols=(1, 2, 3)),
        TT('a', (1, 2, 1, 2), (1, 2, 1, 2, 1), cols=(1, 1, 2, 1)), TT('a', (1, 1, 1, 2, 1), (1, 1, 1, 2, 3, 1), cols=(1, 1, 1, 1, 3))]
  for t in ts[:5] + ts[6:] + ms:
    for nnz in (1, 2):
      if nnz == 1 or t.cols is None or prod(t.modes + t.cols) <= (24 if tier == 'thorough' else 12):
        out.append(sparse(t, nnz))
  out += [sparse(TT('a', (2, 3), (1, 2, 1), dtype='float32'), 2),
          sparse(TT('a', (2, 2), (1, 2, 1), cols=(2, 1), dtype='float32'), 2),
          sparse(TT('a', (5, 2), (1, 2, 1), cols=(2, 3), sparse=8), 1),
          sparse(TT('a', (2, 3), (1, 2, 1)), 3)]
  big = 2 ** 33 + 5
  out += [huge((2,) * 34, (1,) * 34, [(big, 0)]), huge((1,) * 34, (2,) * 34, [(0, big), (0, 2 ** 31)]),
          huge((3,) * 21, (2,) * 21, [(2 ** 31 + 1, 77), (3 ** 21 - 1, 2 ** 21 - 1)])]
  for s in ((3,), (2, 3), (3, 1, 2), (2, 3, 4), (4, 3, 2, 5), (1, 1, 7), (2,) * 6, (11, 13)):
    for kind in ('int32', 'int64'):
      out += [unravel(s, 2, kind), unravel(s, 1, kind)]
  return out
