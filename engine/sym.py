"""Arguments of a case, and dense references that work on symbols and numbers.

Everything here is independent of t3f: a TT object is a list of arrays, and
its dense form is the sum over rank indices of products of core entries.
"""
import random
from fractions import Fraction
import numpy as np

from engine import terms as T
from engine.terms import Term


def arr(name, shape, sort='R'):
  a = np.empty(shape, dtype=object)
  if a.ndim == 0:
    a[()] = T.var(name, sort)
    return a
  for i in np.ndindex(*a.shape):
    a[i] = T.var('%s_%s' % (name, '_'.join(map(str, i))), sort)
  return a


def ein(eq, *ops):
  """einsum on symbolic or numeric arrays."""
  ops = [np.asarray(o) for o in ops]
  if any(o.dtype == object for o in ops):
    from engine import interp
    return interp.einsum(eq, *[interp.as_obj(o) for o in ops])
  return np.einsum(eq, *ops)


def total(a):
  """Sum of all entries."""
  a = np.asarray(a)
  if a.dtype == object:
    return T.nsum(list(a.reshape(-1)))
  return a.sum()


def norm2(a):
  a = np.asarray(a).reshape(-1)
  return ein('i,i->', a, a)


def eye(n, m=None, like=None):
  e = np.eye(n, m, dtype=int)
  return e.astype(object) if like is None or np.asarray(like).dtype == object else e.astype(float)


def prod(xs):
  r = 1
  for x in xs:
    r *= int(x)
  return r


def chain(cores):
  """Product of cores of shape (r, ..., r'); axes of the modes stay separate."""
  x = np.asarray(cores[0])
  for y in cores[1:]:
    y = np.asarray(y)
    s = x.shape
    x = ein('ij,jk->ik', x.reshape(-1, s[-1]), y.reshape(y.shape[0], -1))
    x = x.reshape(s[:-1] + y.shape[1:])
  return x


def dense_of(cores, matrix=False):
  """Dense array of one TT object given by its cores."""
  x = chain(cores)
  x = x.reshape(x.shape[1:-1])
  if matrix:
    d = len(cores)
    x = np.transpose(x, list(range(0, 2 * d, 2)) + list(range(1, 2 * d, 2)))
    x = x.reshape(prod(x.shape[:d]), prod(x.shape[d:]))
  return x


def take(x, i, axis=0):
  """x.take(i, axis) where i may be a symbolic integer (negative wraps)."""
  x = np.asarray(x)
  if not isinstance(i, Term):
    return np.take(x, int(i), axis=axis)
  n = x.shape[axis]
  x = np.moveaxis(x, axis, 0)
  rows = [np.asarray(x[k], dtype=object) for k in range(n)]
  out = rows[-1].copy()
  for k in range(n - 2, -1, -1):
    c = T.or_(T.eq(i, k), T.eq(i, k - n))
    new = np.empty(out.shape, dtype=object)
    for j in np.ndindex(*out.shape):
      new[j] = T.ite(c, rows[k][j], out[j])
    out = new
  return out


class TTVal(object):
  """Cores (symbolic or numeric) with the kind of object they form."""

  def __init__(self, cores, matrix=False, batch=None):
    self.cores = [np.asarray(c) for c in cores]
    self.matrix = matrix
    self.batch = batch

  @property
  def d(self):
    return len(self.cores)

  @property
  def modes(self):
    k = 1 if self.batch is None else 2
    return tuple(c.shape[k] for c in self.cores)

  @property
  def cols(self):
    k = 2 if self.batch is None else 3
    return tuple(c.shape[k] for c in self.cores) if self.matrix else None

  @property
  def ranks(self):
    k = 0 if self.batch is None else 1
    return tuple(c.shape[k] for c in self.cores) + (self.cores[-1].shape[-1],)

  def elem(self, b):
    if self.batch is None:
      return self
    return TTVal([c[b] for c in self.cores], self.matrix)

  def dense(self):
    """Array of the represented object, first axis is the batch (if any)."""
    if self.batch is None:
      return dense_of(self.cores, self.matrix)
    return np.stack([dense_of([c[b] for c in self.cores], self.matrix)
                     for b in range(self.batch)])

  def tensors(self):
    """Like dense(), but rows and columns of a matrix stay separate modes
    i1..id,j1..jd."""
    x = self.dense()
    if not self.matrix:
      return x
    return x.reshape(x.shape[:-2] + self.modes + self.cols)


class TT(object):
  """A TT argument: modes, optional column modes, ranks, optional batch."""

  def __init__(self, name, modes, ranks, cols=None, batch=None, dtype='float64',
               unknown='', sparse=None, declare=False, value=None):
    self.name = name
    self.modes = tuple(modes)
    self.cols = None if cols is None else tuple(cols)
    if isinstance(ranks, int):
      ranks = (1,) + (ranks,) * (len(modes) - 1) + (1,)
    self.ranks = tuple(ranks)
    self.batch = batch
    self.dtype = dtype
    self.unknown = unknown      # letters: n modes, r ranks, b batch,
                                    # i row modes, j column modes, e modes of cores 0, 2, ..,
                                    # q left ranks of cores 1, 3, ..
    self.sparse = sparse        # at most this many symbols per core
    self.declare = declare      # pass shape/ranks explicitly
    self.value = value          # fixed numeric cores

  def shapes(self):
    out = []
    for k in range(len(self.modes)):
      s = [self.ranks[k], self.modes[k]]
      if self.cols is not None:
        s.append(self.cols[k])
      s.append(self.ranks[k + 1])
      if self.batch is not None:
        s = [self.batch] + s
      out.append(tuple(s))
    return out

  def specs(self):
    import tensorflow as tf
    out = []
    d = len(self.modes)
    for k, s in enumerate(self.shapes()):
      s = list(s)
      o = 0 if self.batch is None else 1
      if o and 'b' in self.unknown:
        s[0] = None
      if 'n' in self.unknown:
        s[o + 1] = None
        if self.cols is not None:
          s[o + 2] = None
      if 'i' in self.unknown or 'e' in self.unknown and k % 2 == 0:
        s[o + 1] = None
      if self.cols is not None and ('j' in self.unknown or 'e' in self.unknown and k % 2 == 0):
        s[o + 2] = None
      if 'q' in self.unknown and k % 2 == 1:
        s[o] = None
      if 'r' in self.unknown:
        if k > 0:
          s[o] = None
        if k < d - 1:
          s[-1] = None
      out.append(tf.TensorSpec(s, self.dtype))
    return out

  def symbols(self):
    out = []
    rnd = random.Random(self.name + str(self.shapes()))
    for k, s in enumerate(self.shapes()):
      if self.value is not None:
        out.append(_fixed(self.value[k]))
        continue
      a = arr('%s%d' % (self.name, k), s)
      if self.sparse is not None and a.size > self.sparse:
        f = a.reshape(-1)
        keep = set(rnd.sample(range(f.size), self.sparse))
        for i in range(f.size):
          if i not in keep:
            f[i] = rnd.choice([-2, -1, 0, 1, 1, 2])
        a = f.reshape(s)
      out.append(a)
    return out

  def build(self, tensors):
    import t3f
    cls = t3f.TensorTrain if self.batch is None else t3f.TensorTrainBatch
    return cls(list(tensors))

  def view(self, arrays):
    return TTVal(arrays, self.cols is not None, self.batch)

  def describe(self):
    return '%s=TT%s modes=%s cols=%s ranks=%s batch=%s %s%s' % (
        self.name, '-matrix' if self.cols is not None else '', list(self.modes),
        None if self.cols is None else list(self.cols), list(self.ranks), self.batch,
        self.dtype, ' unknown=' + self.unknown if self.unknown else '')


class Dense(object):
  """A dense argument of real or integer (lo <= x < hi) entries."""

  def __init__(self, name, shape, dtype='float64', lo=None, hi=None, unknown=(),
               sparse=None, value=None):
    self.name = name
    self.shape = tuple(shape)
    self.dtype = dtype
    self.lo = lo      # number or array broadcast to shape
    self.hi = hi
    self.unknown = tuple(unknown)
    self.sparse = sparse
    self.value = value

  @property
  def is_int(self):
    return self.dtype.startswith('int')

  def specs(self):
    import tensorflow as tf
    s = [None if k in self.unknown else n for k, n in enumerate(self.shape)]
    return [tf.TensorSpec(s, self.dtype)]

  def symbols(self):
    if self.value is not None:
      return [_fixed(self.value)]
    a = arr(self.name, self.shape, 'I' if self.is_int else 'R')
    if self.sparse is not None and a.size > self.sparse:
      rnd = random.Random(self.name + str(self.shape))
      f = a.reshape(-1)
      keep = set(rnd.sample(range(f.size), self.sparse))
      for i in range(f.size):
        if i not in keep:
          f[i] = rnd.choice([-2, -1, 0, 1, 1, 2])
      a = f.reshape(self.shape)
    return [a]

  def assumptions(self, arrays):
    if not self.is_int or self.lo is None:
      return []
    out = []
    lo = np.broadcast_to(np.asarray(self.lo), self.shape)
    hi = np.broadcast_to(np.asarray(self.hi), self.shape)
    for i in np.ndindex(*self.shape):
      v = arrays[0][i]
      if isinstance(v, Term):
        out += [T.le(int(lo[i]), v), T.lt(v, int(hi[i]))]
    return out

  def sample(self, rnd, i):
    lo = int(np.broadcast_to(np.asarray(self.lo), self.shape)[i])
    hi = int(np.broadcast_to(np.asarray(self.hi), self.shape)[i])
    return rnd.randrange(lo, hi)

  def build(self, tensors):
    return tensors[0]

  def view(self, arrays):
    return np.asarray(arrays[0])

  def describe(self):
    s = '%s=%s%s' % (self.name, self.dtype, list(self.shape))
    if self.is_int and self.lo is not None:
      s += ' in [%s, %s)' % (np.asarray(self.lo).tolist(), np.asarray(self.hi).tolist())
    return s + (' unknown=%s' % (self.unknown,) if self.unknown else '')


def _fixed(v):
  v = np.asarray(v)
  out = np.empty(v.shape, dtype=object)
  f = out.reshape(-1)
  for i, x in enumerate(v.reshape(-1)):
    f[i] = x if isinstance(x, (Term, int, Fraction)) else T.norm_num(x)
  return f.reshape(v.shape)


class ETT(object):
  """Expected TT result: dense value, kind and shape."""

  def __init__(self, dense, modes, cols=None, batch=None, dtype=None, ranks=None):
    self.dense = dense
    self.modes = tuple(int(m) for m in modes)
    self.cols = None if cols is None else tuple(int(m) for m in cols)
    self.batch = batch
    self.dtype = dtype
    self.ranks = ranks          # optional exact ranks


def like(dense, tt, batch='same'):
  return ETT(dense, tt.modes, tt.cols, tt.batch if batch == 'same' else batch)
