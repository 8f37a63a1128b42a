"""C03: reported shapes, ranks, batch sizes and dtypes.

sizes ...: symbolic sizes, for all positive integers.
static ...: what an object says about itself, for all static sizes.
grid ...: static against run-time against actual sizes of results.
"""
import copy
import itertools
import numpy as np
import tensorflow as tf
import t3f
from engine import fork, sizes
from engine.harness import Case, as_list
from engine.sizes import SizeCase, Dense as SD, Expect, product, add, mul, minimum
from engine.sym import TT, Dense, ETT, prod
from engine.z3conv import z3
from checks.c26 import hidden
from checks.c26 import usable as plain
from checks.derived import pick
from checks.grid import both, label

MODES, COLS, RANKS = (2, 3, 1, 4, 2), (3, 1, 2, 2, 3), (2, 3, 2, 1)


def tt(name, d, cols=False, batch=None, mask='nr', mode='n', col='m', dtype='float64'):
  """batch: None, int or name."""
  n = ['%s%d' % (mode, k) if 'n' in mask else MODES[k] for k in range(d)]
  m = None
  if cols:
    m = ['%s%d' % (col, k) if 'n' in mask else COLS[k] for k in range(d)]
  r = [1] + ['%s%d' % (name, k) if 'r' in mask else RANKS[k - 1] for k in range(1, d)] + [1]
  return sizes.TT(n, r, m, batch, dtype)


def each(f, xs, *ys):
  return [f(*t) for t in zip(xs, *ys)]


def like(t, size, **kw):
  x = dict(modes=[size(v) for v in t.modes], cols=None if t.cols is None else [size(v) for v in t.cols],
           ranks=[size(v) for v in t.ranks], batch=None if t.batch is None else size(t.batch), dtype=t.dtype)
  x.update(kw)
  return Expect(**x)


def shape_of(t, size):
  b = [] if t.batch is None else [size(t.batch)]
  if t.cols is None:
    return b + [size(v) for v in t.modes]
  return b + [product([size(v) for v in t.modes]), product([size(v) for v in t.cols])]


def outer(t, u, size):
  """Batch of a combination."""
  if t.batch is None:
    return None if u.batch is None else size(u.batch)
  if u.batch is None or u.batch == 1:
    return size(t.batch)
  return size(u.batch) if t.batch == 1 else size(t.batch)


def size_cases(tier):
  out = []
  more = tier == 'thorough'

  def put(name, args, prog, spec, lo=1):
    def text(a):
      if isinstance(a, SD):
        return 'x'.join(map(str, a.dims))
      return 'x'.join(map(str, a.modes)) + ('' if a.cols is None else '|' + 'x'.join(map(str, a.cols))) + \
          ' r' + '.'.join(map(str, a.ranks[1:-1])) + ('' if a.batch is None else ' b%s' % a.batch)
    out.append(SizeCase('sizes %s: %s' % (name, ' ; '.join(text(a) for a in args)), args, prog,
                        lambda s: spec(s, *args), lo))

  ds = (1, 2, 3, 4) if more else (1, 2, 3)
  masks = ('n', 'r', 'nr')
  for d, cols, batch, mask in itertools.product(ds, (False, True), (None, 'b', 3), masks):
    if d == 1 and 'r' in mask:
      continue
    a = tt('a', d, cols, batch, mask)
    b = tt('b', d, cols, batch, mask)
    one = tt('b', d, cols, None, mask)
    put('of the object', [a], lambda a: a, lambda s, a: [like(a, s)])
    put('full', [a], lambda a: t3f.full(a), lambda s, a: [shape_of(a, s)])
    put('scaled', [a], lambda a: [a * 2.0, -a, 0.5 * a], lambda s, a: [like(a, s)] * 3)
    put('cast', [a], lambda a: t3f.cast(a, tf.float32), lambda s, a: [like(a, s, dtype='float32')])
    put('norm', [a], lambda a: [t3f.frobenius_norm_squared(a), t3f.frobenius_norm(a)],
        lambda s, a: [[] if a.batch is None else [s(a.batch)]] * 2)
    put('expand', [a], lambda a: t3f.expand_batch_dim(a), lambda s, a: [like(a, s, batch=1 if a.batch is None else s(a.batch))])
    put('add', [a, one], lambda a, b: [a + b, b + a, a - b],
        lambda s, a, b: [like(a, s, ranks=[1] + [add(s(x), s(y)) for x, y in zip(a.ranks, b.ranks)][1:-1] + [1])] * 3)
    put('multiply', [a, one], lambda a, b: [a * b, b * a],
        lambda s, a, b: [like(a, s, ranks=[mul(s(x), s(y)) for x, y in zip(a.ranks, b.ranks)])] * 2)
    put('inner', [a, one], lambda a, b: [t3f.flat_inner(a, b), t3f.flat_inner(b, a)],
        lambda s, a, b: [[] if a.batch is None else [s(a.batch)]] * 2)
    if batch != 'b':
      put('combined', [a, b], lambda a, b: [a + b, a * b, t3f.flat_inner(a, b)],
          lambda s, a, b: [like(a, s, ranks=[1] + [add(s(x), s(y)) for x, y in zip(a.ranks, b.ranks)][1:-1] + [1]),
                           like(a, s, ranks=[mul(s(x), s(y)) for x, y in zip(a.ranks, b.ranks)]),
                           [] if a.batch is None else [s(a.batch)]])
    if batch == 'b':
      # the same symbol: two batches of equal unknown size are not combined by
      # design, one of size 1 and one of unknown size are
      u = tt('b', d, cols, 1, mask)
      put('broadcast', [a, u], lambda a, b: [a + b, b + a, a * b],
          lambda s, a, b: [like(a, s, ranks=[1] + [add(s(x), s(y)) for x, y in zip(a.ranks, b.ranks)][1:-1] + [1])] * 2 +
          [like(a, s, ranks=[mul(s(x), s(y)) for x, y in zip(a.ranks, b.ranks)])])
      put('product of batches', [a, b], lambda a, b: a * b,
          lambda s, a, b: [like(a, s, ranks=[mul(s(x), s(y)) for x, y in zip(a.ranks, b.ranks)])])
    if batch is not None:
      w = SD([batch])
      put('weights', [a, w], lambda a, w: t3f.multiply_along_batch_dim(a, w), lambda s, a, w: [like(a, s)])
      put('element', [a], lambda a: [a[0], a[0:1]], lambda s, a: [like(a, s, batch=None), like(a, s, batch=1)])
      c = tt('a', d, cols, 'c' if batch == 'b' else 2, mask)
      if mask == 'n' or d == 1:
        put('concat', [a, c], lambda a, c: t3f.concat_along_batch_dim([a, c]),
            lambda s, a, c: [like(a, s, batch=add(s(a.batch), s(c.batch)))])
      if 'n' not in mask or not cols:
        put('gram', [a], lambda a: t3f.gram_matrix(a), lambda s, a: [[s(a.batch)] * 2])
        put('pairwise', [a, c], lambda a, c: t3f.pairwise_flat_inner(a, c), lambda s, a, c: [[s(a.batch), s(c.batch)]])
    if cols:
      put('transpose', [a], lambda a: t3f.transpose(a),
          lambda s, a: [like(a, s, modes=[s(v) for v in a.cols], cols=[s(v) for v in a.modes])])
      k = sizes.TT([v for v in a.cols], b.ranks, [('k%d' % i if 'n' in mask else (2, 1, 3, 2)[i]) for i in range(d)],
                   None, 'float64')
      put('matmul', [a, k], lambda a, b: t3f.matmul(a, b),
          lambda s, a, b: [like(a, s, cols=[s(v) for v in b.cols], ranks=[mul(s(x), s(y)) for x, y in zip(a.ranks, b.ranks)])])
      put('matmul of transposes', [a, k], lambda a, b: t3f.matmul(t3f.transpose(b), t3f.transpose(a)),
          lambda s, a, b: [like(a, s, modes=[s(v) for v in b.cols], cols=[s(v) for v in a.modes],
                                ranks=[mul(s(x), s(y)) for x, y in zip(a.ranks, b.ranks)])])
      if batch is None:
        if 'n' not in mask:
          right = SD([prod(COLS[:d]), 'k'])
          left = SD(['k', prod(MODES[:d])])
          put('matmul dense right', [a, right], lambda a, x: t3f.matmul(a, x), lambda s, a, x, d=d: [[prod(MODES[:d]), s('k')]])
          put('matmul dense left', [a, left], lambda a, x: t3f.matmul(x, a), lambda s, a, x, d=d: [[s('k'), prod(COLS[:d])]])
        sq = sizes.TT(a.modes, a.ranks, a.modes)
        v1 = sizes.TT(a.modes, b.ranks, [1] * d)
        v2 = sizes.TT(a.modes, [1] + ['c%d' % i if 'r' in mask else 2 for i in range(1, d)] + [1], [1] * d)
        put('bilinear form', [sq, v1, v2], lambda a, x, y: t3f.bilinear_form(a, x, y), lambda s, a, x, y: [[]])
        xb = sizes.TT(a.modes, b.ranks, [1] * d, 'b')
        put('bilinear form of batches', [sq, xb, xb], lambda a, x, y: t3f.bilinear_form(a, x, y),
            lambda s, a, x, y: [[s('b')]])
    if not cols:
      if batch is None:
        if 'n' in mask:
          whole = [slice(None)] * d
          for k in range(d):
            if d > 1:
              put('index %d' % k, [a], lambda a, k=k, d=d: a[tuple(0 if i == k else slice(None) for i in range(d))],
                  lambda s, a, k=k: [Expect([s(v) for i, v in enumerate(a.modes) if i != k])])
            put('slice %d' % k, [a], lambda a, k=k, d=d: a[tuple(slice(1, None) if i == k else slice(None) for i in range(d))],
                lambda s, a, k=k: [like(a, s, modes=[add(s(v), -1) if i == k else s(v) for i, v in enumerate(a.modes)])],
                lo={'n%d' % k: 2})
            put('last %d' % k, [a], lambda a, k=k, d=d: a[tuple(slice(0, -1) if i == k else slice(None) for i in range(d))],
                lambda s, a, k=k: [like(a, s, modes=[add(s(v), -1) if i == k else s(v) for i, v in enumerate(a.modes)])],
                lo={'n%d' % k: 2})
        put('gather', [a, SD(['q', d], 'int32')], lambda a, i: t3f.gather_nd(a, i), lambda s, a, i: [[s('q')]])
      else:
        put('index all', [a], lambda a, d=d: a[(slice(None),) + (slice(None),) * d], lambda s, a: [like(a, s)])
        if d > 1:
          put('index first', [a], lambda a, d=d: a[(0,) + (slice(None),) * (d - 1) + (0,)],
              lambda s, a: [Expect([s(v) for v in a.modes[:-1]])])
    if d > 1 or 'n' in mask:
      put('orthogonalized', [a], lambda a: t3f.orthogonalize_tt_cores(a), lambda s, a: [like(a, s, ranks=left_ranks(a, s))])
      if batch is None:
        put('orthogonalized right to left', [a], lambda a: t3f.orthogonalize_tt_cores(a, left_to_right=False),
            lambda s, a: [like(a, s, ranks=right_ranks(a, s))])
      if d <= 3:
        for cap in (1, 2, 10 ** 6):
          put('round to %d' % cap, [a], lambda a, cap=cap: t3f.round(a, max_tt_rank=cap), lambda s, a: [like(a, s, ranks=None)])
    if d > 1 and batch != 'b':
      p = tt('p', d, cols, None, mask)
      n = tt('z', d, cols, 3, mask)
      put('projected', [a, p], lambda a, p: t3f.project(a, p), lambda s, a, p: [like(a, s, ranks=None)])
      if batch is None:
        put('sum projected', [n, p], lambda a, p: t3f.project_sum(a, p), lambda s, a, p: [like(p, s, ranks=None)])
      if batch is not None:
        put('tangent inner products', [a, p], lambda a, p: t3f.pairwise_flat_inner_projected(*[t3f.project(a, p)] * 2),
            lambda s, a, p: [[s(a.batch)] * 2])
  return [c for c in out if c is not None]


def left_ranks(t, size):
  r = [size(x) for x in t.ranks]
  for k in range(len(t.modes) - 1):
    n = size(t.modes[k]) if t.cols is None else mul(size(t.modes[k]), size(t.cols[k]))
    r[k + 1] = minimum(mul(r[k], n), r[k + 1])
  return r


def right_ranks(t, size):
  r = [size(x) for x in t.ranks]
  for k in range(len(t.modes) - 1, 0, -1):
    n = size(t.modes[k]) if t.cols is None else mul(size(t.modes[k]), size(t.cols[k]))
    r[k] = minimum(mul(r[k + 1], n), r[k])
  return r


def static_case(d, cols, unknown):
  """What a single object says about static sizes, for all sizes."""
  names = ['n%d' % k for k in range(d)] + (['m%d' % k for k in range(d)] if cols else []) + ['r%d' % k for k in range(1, d)]
  names = [n for n in names if n not in unknown]

  def prog(v):
    with tf.Graph().as_default():
      r = [1] + [v.get('r%d' % k) for k in range(1, d)] + [1]
      cores = []
      for k in range(d):
        dims = [r[k], v.get('n%d' % k)] + ([v.get('m%d' % k)] if cols else []) + [r[k + 1]]
        t = tf.compat.v1.placeholder('float32', [None] * len(dims))
        t._shape_val = tf.TensorShape(dims)
        cores.append(t)
      a = t3f.TensorTrain(cores)
      b = t3f.TensorTrain(cores, a.get_raw_shape(), a.get_tt_ranks())
      out = []
      for x in (a, b):
        raw = x.get_raw_shape()
        out += [('number of cores', x.ndims(), d), ('kind', x.is_tt_matrix(), cols), ('dtype', x.dtype.name, 'float32'),
                ('rows of the mode shape', len(raw), 2 if cols else 1), ('left', x.left_tt_rank_dim, 0),
                ('right', x.right_tt_rank_dim, 3 if cols else 2), ('variable', x.is_variable(), False)]
        for row, c in zip(raw, 'nm'):
          out += [('mode %s%d' % (c, k), q, v.get('%s%d' % (c, k))) for k, q in enumerate(row.as_list())]
        out += [('rank %d' % k, q, r[k]) for k, q in enumerate(x.get_tt_ranks().as_list())]
        shape = x.get_shape().as_list()
        if not cols:
          out += [('size %d' % k, q, v.get('n%d' % k)) for k, q in enumerate(shape)]
        else:
          for q, c in zip(shape, 'nm'):
            w = 1
            for k in range(d):
              y = v.get('%s%d' % (c, k))
              w = None if w is None or y is None else w * y
            out.append(('total size %s' % c, q, w))
        out.append(('number of sizes', len(shape), 2 if cols else d))
      return out
  return fork.PathCase('static %s of %d cores%s' % ('matrix' if cols else 'tensor', d, ' unknown ' + '.'.join(unknown) if unknown else ''),
                       names or ['dummy'], prog, lambda z: z3.BoolVal(True),
                       functions=['tensor_train_base:get_shape', 'tensor_train_base:get_raw_shape', 'tensor_train_base:get_tt_ranks',
                                  'tensor_train_base:ndims', 'tensor_train_base:is_tt_matrix'])


def static_cases(tier):
  out = []
  for d in ((1, 2, 3, 5, 8) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 8, 10)):
    for cols in (False, True):
      out.append(static_case(d, cols, ()))
      for u in (('n0',), ('n%d' % (d - 1),), ('m%d' % (d - 1),) if cols else (), ('r1',) if d > 1 else (),
                tuple('n%d' % k for k in range(d)), tuple('r%d' % k for k in range(1, d))):
        if u:
          out.append(static_case(d, cols, u))
  return {c.name: c for c in out}.values()


def reported(a):
  """All ways of asking an object for its sizes."""
  def prog(x):
    out = [x, t3f.shape(x), t3f.raw_shape(x), t3f.tt_ranks(x), t3f.lazy_shape(x), t3f.lazy_raw_shape(x),
           t3f.lazy_tt_ranks(x), np.array([x.ndims(), x.is_tt_matrix(), x.left_tt_rank_dim, x.right_tt_rank_dim,
                                           x.dtype == tf.as_dtype(a.dtype), x.is_variable()]).astype(np.int32)]
    if a.batch is not None:
      out += [t3f.batch_size(x), t3f.lazy_batch_size(x), t3f.expand_batch_dim(x)]
    return [tf.cast(o, tf.int32) if not isinstance(o, (t3f.TensorTrain, t3f.TensorTrainBatch)) else o for o in out]

  def spec(v):
    e = ETT(v.dense() if prod(a.modes) < 1000 else None, a.modes, a.cols, a.batch, a.dtype, a.ranks)
    raw = [list(a.modes)] + ([list(a.cols)] if a.cols is not None else [])
    shape = ([a.batch] if a.batch is not None else []) + (list(a.modes) if a.cols is None else [prod(a.modes), prod(a.cols)])
    off = int(a.batch is not None)
    out = [e] + [np.array(shape), np.array(raw), np.array(a.ranks)] * 2
    out.append(np.array([len(a.modes), a.cols is not None, off, off + (2 if a.cols is None else 3), 1, 0]).astype(int))
    if a.batch is not None:
      out += [np.array(a.batch), np.array(a.batch), e]
    return out
  return Case('grid reported sizes %s' % label(a), [a], prog, spec, meta=True)


def grid_cases(tier):
  out = []
  for b in (None, 1, 2, 3):
    for dt in ('float64', 'float32'):
      for a in both('a', tier, batch=b, dtype=dt):
        for u in ('', 'n', 'r', 'nr') + (('b', 'nrb') if b else ()):
          if len(a.modes) == 1 and 'r' in u or (dt == 'float32' and u and tier == 'quick'):
            continue
          c = copy.copy(a)
          c.unknown = u
          out.append(reported(c))
  return out


SOURCES = [('c02', 1, 4), ('c04', 2, 6), ('c05', 2, 6), ('c06', 2, 6), ('c07', 1, 2), ('c08', 1, 2), ('c09', 2, 4), ('c10', 1, 2),
           ('c11', 2, 6), ('c12', 2, 6), ('c13', 2, 8), ('c14', 2, 6), ('c15', 2, 6), ('c16', 1, 3), ('c17', 1, 3), ('c18', 1, 2),
           ('c19', 1, 3), ('c20', 2, 6), ('c22', 2, 6)]


def usable(c):
  return not c.raises and not c.setup and not c.stochastic


def derived_cases(tier):
  """Results of the operations, on the configurations of the other checks."""
  out, names = [], set()
  for src, few, many in SOURCES:
    for c in pick(src, None, few if tier == 'quick' else many, usable, tier='quick'):
      d = copy.copy(c)
      d.name = 'grid %s: %s' % (src.upper(), c.name)
      d.meta = True
      d.spec = only_sizes(c.spec) if c.spec else None
      d.check = d.extra = d.numeric = None
      if d.name not in names:
        names.add(d.name)
        out.append(d)
  return out


def only_sizes(spec):
  def f(*vs):
    out = []
    for e in as_list(spec(*vs)):
      if isinstance(e, ETT):
        e = copy.copy(e)
        e.dense = None
        out.append(e)
      else:
        out.append(None)
    return out
  return f


def large_cases(tier):
  """Objects that have more entries than fit any integer of the machine."""
  out = []
  for d, n, m in ((40, 2, 1), (80, 5, 3), (65, 2, 2), (33, 1, 4)):
    for batch in (None, 2):
      for kind in ('tensor', 'matrix'):
        def prog(*args, d=d, n=n, m=m, batch=batch, kind=kind):
          if kind == 'tensor':
            a = t3f.tensor_ones([n] * d)
          else:
            a = t3f.matrix_ones([[n] * d, [m] * d])
          if batch:
            a = t3f.TensorTrainBatch([tf.stack([c] * batch) for c in a.tt_cores])
          b = a + (a * 2.0 if d <= 40 else a)
          facts = []
          for x, r in ((a, 1), (b, 2), (-a if d <= 40 else a, 1)):
            want = ([batch] if batch else []) + ([n] * d if kind == 'tensor' else [n ** d, m ** d])
            facts += [x.get_shape().as_list() == want, x.get_tt_ranks().as_list() == [1] + [r] * (d - 1) + [1],
                      [s.as_list() for s in x.get_raw_shape()] == [[n] * d] + ([[m] * d] if kind == 'matrix' else []),
                      x.ndims() == d, str(want[-1]) in str(x)]
          return [tf.constant(facts), t3f.raw_shape(b), t3f.tt_ranks(b)] + ([t3f.shape(b)] if kind == 'tensor' else [])

        def check(S, vs, outs, d=d, n=n, m=m, batch=batch, kind=kind):
          out = [('reported', outs[0], True, 'bool'),
                 ('modes', outs[1], np.array([[n] * d] + ([[m] * d] if kind == 'matrix' else []))),
                 ('ranks', outs[2], np.array([1] + [2] * (d - 1) + [1]))]
          if kind == 'tensor':
            out.append(('shape', outs[3], np.array(([batch] if batch else []) + [n] * d)))
          return out
        out.append(Case('large %s %d cores %d|%d b%s' % (kind, d, n, m, batch), [Dense('x', (1,))], prog, check=check))
  # the run-time total size of a matrix is a 32-bit number
  for d, n in ((31, 2), (40, 2), (20, 3)):
    out.append(Case('large run-time size of a matrix %d^%d' % (n, d), [Dense('x', (1,))],
                    lambda x, d=d, n=n: [tf.cast(t3f.shape(t3f.eye([n] * d)), tf.int64)],
                    check=lambda S, vs, outs, d=d, n=n: [('size', outs[0], np.array([n ** d] * 2))]))
  for d, n in ((30, 2), (19, 3), (4, 200)):
    out.append(Case('large run-time size of a matrix %d^%d' % (n, d), [Dense('x', (1,))],
                    lambda x, d=d, n=n: [tf.cast(t3f.shape(t3f.eye([n] * d)), tf.int64)],
                    check=lambda S, vs, outs, d=d, n=n: [('size', outs[0], np.array([n ** d] * 2))]))
  return out


def cases(tier):
  return size_cases(tier) + list(static_cases(tier)) + grid_cases(tier) + derived_cases(tier) + large_cases(tier)
