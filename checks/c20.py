"""C20: constant initialisers."""
import numpy as np
import tensorflow as tf
import t3f
from engine import terms as T
from engine.harness import Case
from engine.sym import TT, ETT, Dense, take, prod, ein
from checks import grid
from checks.grid import label


def entry(o, rows, cols=None):
  """Element of a TT object at an index that may be symbolic."""
  x = None
  for k, c in enumerate(o.cores):
    c = take(c, rows[k], 1)
    if cols is not None:
      c = take(c, cols[k], 1)
    x = c if x is None else ein('ij,jk->ik', x, c)
  return x[0, 0]


def same(i, j):
  """1 where the multi-indices agree, else 0."""
  r = 1
  for p, q in zip(i, j):
    r = r * (T.ite(T.eq(p, q), 1, 0) if isinstance(p, T.Term) else int(p == q))
  return r


VALUE = {'ones': lambda i, j: 1, 'zeros': lambda i, j: 0, 'eye': same}
DT = {None: 'float32', 'float32': 'float32', 'float64': 'float64', 'int32': 'int32'}


def kw(dtype):
  return {} if dtype is None else {'dtype': getattr(tf, dtype)}


def text(x):
  return ' '.join(repr(x).split())


def tensor(kind, shape, dtype, given=None):
  f = {'ones': t3f.tensor_ones, 'zeros': t3f.tensor_zeros}[kind]
  d = len(shape)
  arg = shape if given is None else given

  def check(S, vs, outs):
    return [('element', np.array(entry(outs[0], vs[0])), np.array(VALUE[kind](vs[0], None)))]
  return Case('tensor_%s %s %s' % (kind, text(arg), dtype), [Dense('i', (d,), 'int64', 0, np.array(shape))],
              lambda i: f(arg, **kw(dtype)),
              lambda i: ETT(None, shape, dtype=DT[dtype]), check=check, meta=True)


def matrix(kind, rows, cols, dtype, given=None):
  f = {'ones': t3f.matrix_ones, 'zeros': t3f.matrix_zeros, 'eye': t3f.eye}[kind]
  d = len(rows)
  arg = given if given is not None else list(rows) if kind == 'eye' else [list(rows), list(cols)]

  def check(S, vs, outs):
    i, j = vs
    return [('element', np.array(entry(outs[0], i, j)), np.array(VALUE[kind](i, j)))]
  return Case('matrix %s %s %s' % (kind, text(arg), dtype),
              [Dense('i', (d,), 'int64', 0, np.array(rows)), Dense('j', (d,), 'int64', 0, np.array(cols))],
              lambda i, j: f(arg, **kw(dtype)),
              lambda i, j: ETT(None, rows, cols, dtype=DT[dtype]), check=check, meta=True)


def like(kind, t):
  f = {'ones': t3f.ones_like, 'zeros': t3f.zeros_like}[kind]

  def spec(v):
    return ETT(np.full([prod(v.modes), prod(v.cols)] if v.matrix else v.modes, 1 if kind == 'ones' else 0),
               v.modes, v.cols, None)
  return Case('%s_like %s' % (kind, label(t)), [t], f, spec, meta=True)


def like_template(kind, name, make, modes, cols, dtype):
  """Template made by the library itself."""
  f = {'ones': t3f.ones_like, 'zeros': t3f.zeros_like}[kind]
  n = [prod(modes), prod(cols)] if cols is not None else modes
  return Case('%s_like of %s' % (kind, name), [], lambda: f(make()),
              lambda: ETT(np.full(n, 1 if kind == 'ones' else 0), modes, cols, None, dtype=dtype), meta=True)


def rejected(name, f):
  return Case('rejects ' + name, [], f, raises=(ValueError,))


def cases(tier):
  out = []
  shapes = [(1,), (4,), (2, 3), (3, 1), (2, 3, 4), (1, 1, 1), (5, 1, 2, 3), (2, 2, 3, 1, 2), (7, 11), (2,) * 12]
  if tier == 'thorough':
    shapes += [(13,), (3, 2), (10, 10, 10), (3,) * 20, (1, 2, 1, 2, 1, 2), (64, 3), (2,) * 40]
  for s in shapes:
    for dt in (None, 'float32', 'float64', 'int32'):
      for kind in ('ones', 'zeros'):
        if dt == 'int32' and len(s) > 5:
          continue
        out.append(tensor(kind, s, dt))
  for s in ((2, 3), (2, 1, 4)):
    for g in (list(s), np.array(s), np.array(s, dtype=np.int32)):
      for kind in ('ones', 'zeros'):
        out.append(tensor(kind, s, 'float64', g))
  mats = [((3,), (2,)), ((1,), (4,)), ((2, 3), (3, 2)), ((2, 2), (2, 2)), ((1, 3), (2, 1)), ((2, 1, 3), (1, 4, 2)),
          ((2, 3, 1, 2), (1, 1, 2, 3)), ((2,) * 5, (3, 1, 2, 1, 2)), ((2,) * 10, (2,) * 10)]
  if tier == 'thorough':
    mats += [((11, 2), (1, 5)), ((3,) * 12, (2,) * 12), ((1,) * 3, (1,) * 3), ((2,) * 25, (1,) * 25)]
  for r, c in mats:
    for dt in (None, 'float64', 'float32'):
      out += [matrix('ones', r, c, dt), matrix('zeros', r, c, dt)]
      if len(r) < 7:
        out.append(matrix('eye', r, r, dt))
  for s in ((3, 1, 2), (2,)):
    for dt in (None, 'float64'):
      for kind in ('ones', 'zeros'):
        one = (1,) * len(s)
        out += [matrix(kind, s, one, dt, [list(s), None]), matrix(kind, one, s, dt, [None, list(s)]),
                matrix(kind, s, one, dt, (s, None)), matrix(kind, s, s[::-1], dt, np.array([s, s[::-1]]))]
      out.append(matrix('eye', s, s, dt, np.array(s)))
  for b in (None, 1, 3):
    for dt in ('float64', 'float32'):
      for t in grid.both('a', tier, batch=b, dtype=dt):
        for kind in ('ones', 'zeros'):
          out.append(like(kind, t))
  for kind in ('ones', 'zeros'):
    out += [like_template(kind, 'eye', lambda: t3f.eye([2, 3]), (2, 3), (2, 3), 'float32'),
            like_template(kind, 'matrix_ones f64', lambda: t3f.matrix_ones([[2, 3], [1, 2]], dtype=tf.float64),
                          (2, 3), (1, 2), 'float64'),
            like_template(kind, 'tensor_zeros', lambda: t3f.tensor_zeros([2, 1, 3]), (2, 1, 3), None, 'float32'),
            like_template(kind, 'random_tensor_batch',
                          lambda: t3f.random_tensor_batch([2, 3], 2, 4, dtype=tf.float64), (2, 3), None, 'float64')]
  bad1 = [[], [0], [-1], [2, 0, 3], [2, -3], [[2, 3]], [[2, 2], [3, 3]], 4, [2.5], [2, 3.5], [2.0, 3.0]]
  for s in bad1:
    for n, f in (('tensor_ones', t3f.tensor_ones), ('tensor_zeros', t3f.tensor_zeros), ('eye', t3f.eye)):
      out.append(rejected('%s %r' % (n, s), lambda f=f, s=s: f(s)))
  bad2 = [[[], []], [[2, 3], [2]], [[2, 0], [1, 1]], [[2, 2], [2, -1]], [[2.5, 2], [2, 2]], [[1, 1], [2, 2], [3, 3]],
          [[[2], [3]], [[2], [3]]], [[2, 3, 4], [2, 3]], [[0], [1]], [2, 3, 4]]
  for s in bad2:
    for n, f in (('matrix_ones', t3f.matrix_ones), ('matrix_zeros', t3f.matrix_zeros)):
      out.append(rejected('%s %r' % (n, s), lambda f=f, s=s: f(s)))
  for n, f in (('ones_like', t3f.ones_like), ('zeros_like', t3f.zeros_like)):
    for v in (3, [2, 3], 'a'):
      out.append(rejected('%s %r' % (n, v), lambda f=f, v=v: f(v)))
    out.append(rejected('%s of an array' % n, lambda f=f: f(np.zeros((2, 3)))))
    out.append(rejected('%s of a tensor' % n, lambda f=f: f(tf.zeros((2, 3)))))
  return out
