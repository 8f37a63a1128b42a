"""C01: what the constructors accept, for all integer sizes."""
import itertools
import numpy as np
import tensorflow as tf
import t3f
from engine import fork
from engine.harness import Case
from engine.sym import TT, ETT
from engine.z3conv import z3
from checks.grid import both, label

FUNCTIONS = ['tensor_train:TensorTrain.__init__', 'tensor_train_batch:TensorTrainBatch.__init__']


def tensor(dims, dtype='float64'):
  """A graph tensor with the given static sizes (numbers, symbols or None)."""
  if any(isinstance(x, fork.SymInt) for x in dims):
    t = tf.compat.v1.placeholder(dtype, [None] * len(dims))
    t._shape_val = tf.TensorShape(dims)
    return t
  return tf.compat.v1.placeholder(dtype, dims)


class Config(object):
  """d cores of a tensor (kind 1) or matrix (kind 2), single or batch.

  unknown: names of sizes that are not known statically; shape, ranks, batch:
  what is declared; axes/dtypes: deviations of single cores.
  """

  def __init__(self, d, kind, batch, shape=None, ranks=None, size=False, unknown=(), axes=None, dtypes=None,
               convert=True, shape_len=None, ranks_len=None, shape_kind=None, label=''):
    self.d, self.kind, self.batch = d, kind, batch
    self.shape, self.ranks, self.size = shape, ranks, size
    self.unknown = set(unknown)
    self.axes = axes or {}
    self.dtypes = dtypes or {}
    self.convert = convert
    self.shape_len = d if shape_len is None else shape_len
    self.ranks_len = d + 1 if ranks_len is None else ranks_len
    self.shape_kind = kind if shape_kind is None else shape_kind
    self.label = label

  def core_names(self, k):
    n = (['b%d' % k] if self.batch else []) + ['l%d' % k] + ['%s%d' % (c, k) for c in 'nm'[:self.kind]]
    n += ['r%d' % k]
    extra = self.axes.get(k, 0)
    if extra > 0:
      n = n[:-1] + ['x%d_%d' % (k, j) for j in range(extra)] + n[-1:]
    elif extra < 0:
      n = n[:extra]
    return n

  def shape_names(self):
    return [['%s%d' % (c, k) for k in range(self.shape_len)] for c in ['sn', 'sm', 'so'][:self.shape_kind]]

  def rank_names(self):
    return ['R%d' % k for k in range(self.ranks_len)]

  def names(self):
    out = [n for k in range(self.d) for n in self.core_names(k)]
    if self.shape:
      out += [n for row in self.shape_names() for n in row]
    if self.ranks:
      out += self.rank_names()
    if self.size:
      out.append('B')
    return [n for n in out if n not in self.unknown]

  def fits(self, z):
    cond = []

    def same(*names):
      known = [z[n] for n in names if n in z]
      cond.extend(a == b for a, b in itertools.combinations(known, 2))
    if self.d == 0 or self.axes or self.dtypes:
      return z3.BoolVal(False)
    if self.shape and (self.shape_len != self.d or self.shape_kind != self.kind):
      return z3.BoolVal(False)
    if self.ranks and self.ranks_len != self.d + 1:
      return z3.BoolVal(False)
    for k in range(self.d):
      if self.shape:
        for row, c in zip(self.shape_names(), 'nm'):
          same(row[k], '%s%d' % (c, k))
      same('r%d' % (k - 1) if k else '', 'l%d' % k, 'R%d' % k)
    same('r%d' % (self.d - 1), 'R%d' % self.d)
    for n in ('l0', 'R0', 'r%d' % (self.d - 1), 'R%d' % self.d):
      if n in z:
        cond.append(z[n] == 1)
    if self.batch:
      same('B', *['b%d' % k for k in range(self.d)])
    return z3.And(cond) if cond else z3.BoolVal(True)

  def declared_shape(self, v):
    rows = [[v.get(n) for n in row] for row in self.shape_names()]
    if self.shape == 'tensorshape':
      return tf.TensorShape(rows[0])
    if self.shape == 'tuple':
      return tuple(tf.TensorShape(r) for r in rows)
    sym = any(isinstance(x, fork.SymInt) for r in rows for x in r)
    if len(rows) == 1 and self.shape == 'array':
      rows = rows[0]
    return np.array(rows, dtype=object) if sym else np.array(rows)

  def declared_ranks(self, v):
    r = [v.get(n) for n in self.rank_names()]
    return tf.TensorShape(r) if self.ranks == 'tensorshape' else r

  def prog(self, v):
    with tf.Graph().as_default():
      cores = [tensor([v.get(n) for n in self.core_names(k)], self.dtypes.get(k, 'float64')) for k in range(self.d)]
      kw = {}
      if self.shape:
        kw['shape'] = self.declared_shape(v)
      if self.ranks:
        kw['tt_ranks'] = self.declared_ranks(v)
      if self.size:
        kw['batch_size'] = v.get('B')
      cls = t3f.TensorTrainBatch if self.batch else t3f.TensorTrain
      given = list(cores)
      x = cls(cores, convert_to_tensors=self.convert, **kw)
      facts = [('number of dimensions', x.ndims(), self.d), ('kind', bool(x.is_tt_matrix()), self.kind == 2),
               ('number of cores', len(x.tt_cores), self.d),
               ('cores', all(a is b for a, b in zip(x.tt_cores, given)), True),
               ('dtype', x.dtype == tf.float64, True), ('list of cores', cores == given, True)]
      raw = x.get_raw_shape()
      facts.append(('number of shapes', len(raw), self.kind))
      for row, c, dec in zip(raw, 'nm', self.shape_names()):
        facts.append(('number of modes', len(row), self.d))
        for k in range(self.d):
          facts += self.agree('mode size', row[k], v.get('%s%d' % (c, k)), v.get(dec[k]) if self.shape else None)
      ranks = x.get_tt_ranks()
      facts.append(('number of ranks', len(ranks), self.d + 1))
      for k in range(self.d + 1):
        dec = v.get('R%d' % k) if self.ranks else None
        if k < self.d:
          facts += self.agree('rank', ranks[k], v.get('l%d' % k), dec)
        if k:
          facts += self.agree('rank', ranks[k], v.get('r%d' % (k - 1)), dec, weak=k < self.d)
      if self.batch:
        facts += self.agree('batch size', x.batch_size, v.get('b0'), v.get('B') if self.size else None)
        for k in range(1, self.d):
          facts += self.agree('batch size', x.batch_size, v.get('b%d' % k), None, weak=True)
      return facts

  def agree(self, text, reported, core, declared, weak=False):
    """A size that is reported never differs from one that is known, and it is
    reported when the core or (single source) the declaration gives it."""
    out = []
    if reported is None:
      if not weak and declared is not None or not weak and core is not None and declared is None and not self.any_declared(text):
        out.append((text + ' is reported', False, True))
      return out
    for x in (core, declared):
      if x is not None:
        out.append((text, reported, x))
    return out

  def any_declared(self, text):
    return {'mode size': self.shape, 'rank': self.ranks, 'batch size': self.size}[text]

  def case(self):
    n = '%s%s of %d cores' % ('batch ' if self.batch else '', ('tensor', 'matrix')[self.kind - 1], self.d)
    if self.shape:
      n += ', shape as %s' % self.shape
    if self.ranks:
      n += ', ranks as %s' % self.ranks
    if self.size:
      n += ', batch size'
    if self.unknown:
      n += ', unknown ' + ' '.join(sorted(self.unknown))
    if self.axes:
      n += ', axes %s' % self.axes
    if self.dtypes:
      n += ', dtypes %s' % self.dtypes
    if self.shape_len != self.d:
      n += ', %d modes' % self.shape_len
    if self.ranks_len != self.d + 1:
      n += ', %d ranks' % self.ranks_len
    if self.shape_kind != self.kind:
      n += ', %d shapes' % self.shape_kind
    if not self.convert:
      n += ', cores as they are'
    return fork.PathCase(n, self.names(), self.prog, self.fits, lo=0, functions=FUNCTIONS)


def plain(t, form, wrong=False):
  """Sizes written as Python lists and tuples of numbers."""
  modes = [list(t.modes)] + ([list(t.cols)] if t.cols else [])
  ranks = list(t.ranks)
  size = t.batch
  if wrong == 'shape':
    modes[-1][-1] += 1
  elif wrong == 'ranks' and len(ranks) > 2:
    ranks[1] += 1
  elif wrong == 'boundary':
    ranks[-1] += 1
  elif wrong == 'batch':
    size += 1
  shape = modes if t.cols else modes[0]
  if form == 'tuple':
    shape, ranks = tuple(map(tuple, shape)) if t.cols else tuple(shape), tuple(ranks)
  elif form == 'array':
    shape, ranks = np.array(shape), np.array(ranks)
  kw = dict(shape=shape, tt_ranks=ranks)
  cls = t3f.TensorTrain
  if t.batch is not None:
    cls = t3f.TensorTrainBatch
    kw['batch_size'] = size

  def prog(a):
    return cls(a.tt_cores, **kw)
  name = 'plain %s sizes %s%s' % (form, label(t), ' wrong ' + wrong if wrong else '')
  if wrong:
    return Case(name, [t], prog, raises=(ValueError,))
  return Case(name, [t], prog, lambda x: ETT(x.dense(), x.modes, x.cols, t.batch, ranks=t.ranks))


def cases(tier):
  out = []
  for t in both('a', tier) + both('a', tier, batch=2):
    for form in ('list', 'tuple', 'array'):
      out.append(plain(t, form))
      for w in ('shape', 'boundary') + (('ranks',) if len(t.modes) > 1 else ()) + (('batch',) if t.batch else ()):
        out.append(plain(t, form, w))

  def add(*a, **kw):
    out.append(Config(*a, **kw).case())

  ds = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5)
  for d in ds:
    for kind in (1, 2):
      for batch in (False, True):
        shapes = [None, 'tuple', 'array'] + (['tensorshape'] if kind == 1 else [])
        for shape in shapes:
          for ranks in (None, 'list', 'tensorshape'):
            for size in ((False, True) if batch else (False,)):
              add(d, kind, batch, shape, ranks, size)
        add(d, kind, batch, convert=False)
        add(d, kind, batch, 'tuple', 'list', batch, convert=False)
        # sizes that are not known statically
        some = [n for n in ('b0', 'l0', 'n0', 'r0', 'b1', 'l1', 'n1', 'm1', 'r1', 'l2', 'b2', 'm2')
                if int(n[1]) < d and (batch or n[0] != 'b') and (kind == 2 or n[0] != 'm')]
        masks = [(n,) for n in some] + [some[::2], some[1::2]] + [['b%d' % k for k in range(d)]] * batch
        masks += [[c + str(k) for k in range(d)] for c in 'lrn']
        if tier == 'thorough':
          masks += list(itertools.combinations(some, 2))
        seen = set()
        for m in masks:
          m = tuple(sorted(set(m)))
          if not m or m in seen:
            continue
          seen.add(m)
          add(d, kind, batch, unknown=m)
          add(d, kind, batch, 'tuple', 'tensorshape', batch, unknown=m)
          if batch:
            add(d, kind, batch, 'tuple', None, False, unknown=m)
        for m in (['sn0'], ['R1'], ['R0'], ['B'], ['sn%d' % (d - 1), 'R%d' % d]):
          if 'B' not in m or batch:
            add(d, kind, batch, 'tuple', 'tensorshape', batch, unknown=m)
        # misfits of structure
        for k in range(d):
          if d > 1:
            add(d, kind, batch, axes={k: 1})
            add(d, kind, batch, axes={k: -1})
            add(d, kind, batch, dtypes={k: 'float32'})
            add(d, kind, batch, 'tuple', 'list', batch, dtypes={k: 'float32'})
        add(d, kind, batch, axes={k: 1 if kind == 2 else -1 for k in range(d)})
        add(d, kind, batch, axes={k: 3 for k in range(d)})
        for n in (d - 1, d + 1):
          if n:
            add(d, kind, batch, 'tuple', shape_len=n)
            add(d, kind, batch, 'array', shape_len=n)
        for n in (d, d - 1) + ((d + 2,) if d < 3 else ()):
          add(d, kind, batch, ranks='list', ranks_len=n)
        add(d, kind, batch, 'tuple', shape_kind=3 - kind)
        add(d, kind, batch, 'array', shape_kind=3 - kind)
        add(d, kind, batch, 'tuple', shape_kind=3)
  for batch in (False, True):
    add(0, 1, batch)
    add(0, 1, batch, ranks='list')
  return out
