"""C27: arguments that do not fit are rejected, arguments that fit are not.

run-time ...: the sizes of all arguments are unknown to the graph and symbolic.
static ...: the sizes are known to the graph and symbolic.
rule ...: the batch broadcasting rule, for all batch sizes.
pair ...: kinds, numbers of cores, unit modes, batch sizes, dtypes.
rejects ...: other arguments that are documented to be rejected.
"""
import itertools
import numpy as np
import tensorflow as tf
import t3f
from t3f import ops
from engine import fork, sizes
from engine.harness import Case
from engine.sizes import SizeCase, Dense as SD
from engine.sym import TT, Dense, ETT, ein, prod
from engine.z3conv import z3
from checks.c04 import out_batch
from checks.c06 import bmm
from checks.c07 import scal, items
from checks.grid import label


# ---------------------------------------------------------------- run time
def some(p, d, cols=False, batch=None, modes=None, colmodes=None, rank='r', fixed=()):
  """TT argument whose sizes are symbols of its own; fixed: position -> mode."""
  fixed = dict(fixed)
  n = modes or [fixed.get(k, '%sn%d' % (p, k)) for k in range(d)]
  m = colmodes or (['%sm%d' % (p, k) for k in range(d)] if cols else None)
  return sizes.TT(n, [1] + ['%s%s%d' % (p, rank, k) for k in range(1, d)] + [1], m, batch)


def eqs(s, xs, ys):
  return [s(x) == s(y) for x, y in zip(xs, ys)]


def all_of(conds):
  return z3.And([c if isinstance(c, z3.BoolRef) else z3.BoolVal(bool(c)) for c in conds] + [z3.BoolVal(True)])


def same_sizes(s, a, b):
  return eqs(s, a.modes, b.modes) + (eqs(s, a.cols, b.cols) if a.cols is not None else [])


def run_time_cases(tier):
  out = []
  more = tier == 'thorough'

  def put(name, args, prog, conds):
    def text(a):
      if isinstance(a, SD):
        return 'array ' + 'x'.join(map(str, a.dims))
      return 'x'.join(map(str, a.modes)) + ('' if a.cols is None else '|' + 'x'.join(map(str, a.cols))) + \
          ('' if a.batch is None else ' b%s' % a.batch)
    out.append(SizeCase('run-time %s: %s' % (name, ' ; '.join(map(text, args))), args, prog,
                        fits=lambda s: all_of(conds(s, *args))))

  def same_batch(s, a, b):
    return [s(a.batch) == s(b.batch)] if isinstance(a.batch, str) and isinstance(b.batch, str) else []

  elementwise = [('add', lambda x, y: x + y), ('subtract', lambda x, y: x - y), ('multiply', lambda x, y: x * y),
                 ('inner', lambda x, y: t3f.flat_inner(x, y))]
  for d in ((1, 2, 3, 4) if more else (1, 2, 3)):
    for cols in (False, True):
      batches = [(None, None), (None, 'B'), ('A', None), (1, 'B'), ('A', 1), (3, None), (None, 2), ('A', 'B')]
      for ba, bb in batches:
        for fixed in [()] + [((k, v),) for k in range(d) for v in ((1, 3) if more else (1,))]:
          if fixed and (ba, bb) not in ((None, None), ('A', None)) + ((('A', 'B'),) if more else ()):
            continue
          a, b = some('a', d, cols, ba, fixed=fixed), some('b', d, cols, bb)
          for n, f in elementwise:
            if (ba, bb) == ('A', 'B') and n != 'multiply':
              continue
            # a mode known for one argument only is refused, whatever it is
            if fixed and n != 'inner':
              continue
            put(n, [a, b], f, lambda s, a, b: same_sizes(s, a, b) + same_batch(s, a, b))
            if fixed:
              put(n, [b, a], f, lambda s, a, b: same_sizes(s, a, b) + same_batch(s, a, b))
          if cols and (ba, bb) != ('A', 'B'):
            put('matmul', [a, b], lambda x, y: t3f.matmul(x, y), lambda s, a, b: eqs(s, a.cols, b.modes))
            if fixed:
              put('matmul', [b, a], lambda x, y: t3f.matmul(x, y), lambda s, a, b: eqs(s, a.cols, b.modes))
      # batches
      for ba, bb in (('A', 'B'), (2, 'B'), ('A', 3)):
        a, b = some('a', d, cols, ba), some('b', d, cols, bb)
        put('concat', [a, b], lambda x, y: t3f.concat_along_batch_dim([x, y]),
            lambda s, a, b: same_sizes(s, a, b) + eqs(s, a.ranks, b.ranks))
        if not cols:
          put('pairwise', [a, b], lambda x, y: t3f.pairwise_flat_inner(x, y), lambda s, a, b: same_sizes(s, a, b))
      put('three batches', [some(p, d, cols, p.upper()) for p in 'abc'],
          lambda x, y, z: t3f.concat_along_batch_dim([x, y, z]),
          lambda s, a, b, c: same_sizes(s, a, b) + same_sizes(s, a, c) + eqs(s, a.ranks, b.ranks) + eqs(s, a.ranks, c.ranks))
      # what a declared object is made of
      cores = [SD(sh) for sh in some('a', d, cols).shapes()]
      for k in range(1, d):
        cores[k].dims[0] = 'l%d' % k
      if d < 3:
        put('neighbouring ranks', cores, lambda *c: t3f.full(t3f.TensorTrain(list(c))),
            lambda s, *c: [s(x.dims[-1]) == s(y.dims[0]) for x, y in zip(c, c[1:])])
    ones = [1] * d
    A = some('a', d, True)
    for bx, by in ((None, None), ('B', None), (None, 'B'), ('B', 'B')):
      x, y = some('x', d, batch=bx, colmodes=ones), some('y', d, batch=by, colmodes=ones)
      put('bilinear form', [A, x, y], lambda A, x, y: t3f.bilinear_form(A, x, y),
          lambda s, A, x, y: eqs(s, A.modes, x.modes) + eqs(s, A.cols, y.modes))
      if d < 3:
        put('bilinear form two', [x, A, some('b', d, True), y], lambda x, A, B, y: ops.bilinear_form_two_mat(x, A, B, y),
            lambda s, x, A, B, y: eqs(s, x.modes, A.modes) + eqs(s, A.cols, B.modes) + eqs(s, B.cols, y.modes))
    x, y = some('x', d, batch='X', colmodes=ones), some('y', d, batch='Y', colmodes=ones)
    put('bilinear form', [A, x, y], lambda A, x, y: t3f.bilinear_form(A, x, y),
        lambda s, A, x, y: eqs(s, A.modes, x.modes) + eqs(s, A.cols, y.modes) + [s('X') == s('Y')])
    put('pairwise with a matrix', [x, y, A], lambda x, y, A: t3f.pairwise_flat_inner(x, y, A),
        lambda s, x, y, A: eqs(s, A.modes, x.modes) + eqs(s, A.cols, y.modes))
    put('gram with a matrix', [x, A], lambda x, A: t3f.gram_matrix(x, A),
        lambda s, x, A: eqs(s, A.modes, x.modes) + eqs(s, A.cols, x.modes))
    for n, m in (((2, 3), (3, 1)), ((1, 2), (2, 2))) if d < 3 else ():
      M = some('a', d, modes=list(n[:d]), colmodes=list(m[:d]))
      put('tt by array', [M, SD(['p', 'q'])], lambda x, y: t3f.matmul(x, y), lambda s, x, y: [s('p') == prod(x.cols)])
      put('array by tt', [SD(['p', 'q']), M], lambda x, y: t3f.matmul(x, y), lambda s, x, y: [s('q') == prod(y.modes)])
    if d > 1:
      for cols in (False, True):
        for b in (None, 2):
          put('project', [some('a', d, cols, b), some('b', d, cols)], lambda x, w: t3f.project(x, w),
              lambda s, a, b: same_sizes(s, a, b))
        put('sum of projections', [some('a', d, cols, 3), some('b', d, cols)], lambda x, w: t3f.project_sum(x, w),
            lambda s, a, b: same_sizes(s, a, b))
  return out


# ------------------------------------------------------------------- static
def placed(dims):
  if any(isinstance(x, fork.SymInt) for x in dims):
    t = tf.compat.v1.placeholder('float32', [None] * len(dims))
    t._shape_val = tf.TensorShape(dims)
    return t
  return tf.compat.v1.placeholder('float32', dims)


def static_object(v, p, d, cols, batch, ones=False):
  cores = []
  for k in range(d):
    n = [v['%sn%d' % (p, k)]] + ([v['%sm%d' % (p, k)]] if cols else []) + ([1] if ones else [])
    cores.append(placed(([v[p + 'b']] if batch else []) + [1 if k == 0 else 2] + n + [1 if k == d - 1 else 2]))
  return (t3f.TensorTrainBatch if batch else t3f.TensorTrain)(cores)


def static_names(p, d, cols, batch):
  return ['%sn%d' % (p, k) for k in range(d)] + (['%sm%d' % (p, k) for k in range(d)] if cols else []) + \
      ([p + 'b'] if batch else [])


def static_cases(tier):
  out = []
  more = tier == 'thorough'
  todo = [('add', lambda x, y: t3f.add(x, y)), ('subtract', lambda x, y: x - y), ('multiply', lambda x, y: t3f.multiply(x, y))]
  for d, cols, (ba, bb), (n, f) in itertools.product((1, 2, 3, 4), (False, True), ((0, 0), (1, 0), (0, 1), (1, 1)), todo):
    if d * (1 + cols) * (1 + ba + bb) > (12 if more else 8) or d == 4 and not more and n != 'add':
      continue
    names = static_names('x', d, cols, ba) + static_names('y', d, cols, bb)

    def prog(v, d=d, cols=cols, ba=ba, bb=bb, f=f):
      with tf.Graph().as_default():
        f(static_object(v, 'x', d, cols, ba), static_object(v, 'y', d, cols, bb))
      return []

    def fits(z, names=names, ba=ba, bb=bb):
      c = [z[q] == z['y' + q[1:]] for q in names if q[0] == 'x' and q != 'xb']
      if ba and bb:
        c.append(z3.Or(z['xb'] == z['yb'], z['xb'] == 1, z['yb'] == 1))
      return z3.And(c)
    out.append(fork.PathCase('static %s %d cores%s%s%s' % (n, d, ' matrix' if cols else '', ' batch' if ba else '',
                                                          ' and batch' if bb else ''),
                             names, prog, fits, limit=2000, functions=['ops:' + n, 'shapes:is_batch_broadcasting_possible']))
  # the second argument has to have the sizes of the first, it may be a batch
  for d, cols, b in itertools.product((2, 3), (False, True), (0, 1)):
    if d * (1 + cols) > (6 if more else 4):
      continue
    for n, f in (('project', lambda x, y: t3f.project(y, x)), ('project_sum', lambda x, y: t3f.project_sum(y, x)),):
      if n == 'project_sum' and not b:
        continue
      names = static_names('x', d, cols, 0) + static_names('y', d, cols, b)

      def prog(v, d=d, cols=cols, b=b, f=f):
        with tf.Graph().as_default():
          f(static_object(v, 'x', d, cols, 0), static_object(v, 'y', d, cols, b))
        return []
      out.append(fork.PathCase('static %s %d cores%s%s' % (n, d, ' matrix' if cols else '', ' batch' if b else ''), names, prog,
                               lambda z, names=names: z3.And([z[q] == z['y' + q[1:]] for q in names if q[0] == 'x']),
                               limit=2000, functions=['riemannian:' + n]))
  return out


def rule_cases():
  """t3f.is_batch_broadcasting_possible for all batch sizes."""
  out = []
  f = ['shapes:is_batch_broadcasting_possible']

  def objects(v, kinds):
    for p, k in zip('xy', kinds):
      if k == 'single':
        yield t3f.TensorTrain([placed([1, 2, 1])])
      else:
        yield t3f.TensorTrainBatch([placed([v[p + 'b'] if k == 'batch' else None, 1, 2, 1])])

  for kinds in itertools.product(('single', 'batch', 'unknown'), repeat=2):
    names = [p + 'b' for p, k in zip('xy', kinds) if k == 'batch']

    def prog(v, kinds=kinds, names=names):
      with tf.Graph().as_default():
        got = bool(t3f.is_batch_broadcasting_possible(*objects(v, kinds)))
      if 'single' in kinds:
        want = True
      elif kinds == ('unknown', 'unknown'):
        want = False
      elif 'unknown' in kinds:
        want = bool(v[names[0]] == 1)
      else:
        want = bool(v['xb'] == v['yb']) or bool(v['xb'] == 1) or bool(v['yb'] == 1)
      return [('possible', got, want)]
    out.append(fork.PathCase('rule for %s and %s' % kinds, names or ['dummy'], prog, lambda z: z3.BoolVal(True), functions=f))
  return out


def number_cases():
  """Rank caps and tolerances."""
  out = []

  def tensor():
    return t3f.TensorTrain([tf.ones((1, 2, 2)), tf.ones((2, 3, 1))])

  calls = [
      ('round', lambda **k: t3f.round(tensor(), **k)),
      ('round of a batch', lambda **k: t3f.round(t3f.TensorTrainBatch([tf.ones((2, 1, 2, 2)), tf.ones((2, 2, 3, 1))]), **k)),
      ('to_tt_tensor', lambda **k: t3f.to_tt_tensor(tf.ones((2, 3)), **k)),
      ('to_tt_matrix', lambda **k: t3f.to_tt_matrix(tf.ones((4, 9)), [[2, 2], [3, 3]], **k)),
  ]
  for n, f in calls:
    out.append(fork.PathCase('rank cap of %s' % n, ['cap'], lambda v, f=f: f(max_tt_rank=v['cap']) and [],
                             lambda z: z['cap'] >= 1, lo=-5, hi=9, functions=['decompositions:' + n.split()[0]]))
    for length in (1, 2, 3, 4, 5):
      names = ['c%d' % k for k in range(length)]
      out.append(fork.PathCase('%d rank caps of %s' % (length, n), names,
                               lambda v, f=f, names=names: f(max_tt_rank=[v[q] for q in names]) and [],
                               lambda z, names=names: z3.And([z[q] >= 1 for q in names] + [z3.BoolVal(len(names) == 3)])
                               if len(names) != 1 else z['c0'] >= 1,
                               lo=-1, hi=2, functions=['decompositions:' + n.split()[0]]))
    out.append(fork.PathCase('tolerance of %s' % n, ['eps'], lambda v, f=f: f(max_tt_rank=2, epsilon=v['eps']) and [],
                             lambda z: z['eps'] >= 0, lo=None, sort='R', functions=['decompositions:' + n.split()[0]]))
  return out


# -------------------------------------------------------------------- pairs
FIRST = [
    TT('a', (2, 3), (1, 2, 1)), TT('a', (1, 3), (1, 1, 1)), TT('a', (3,), (1, 1)), TT('a', (2, 1, 2), (1, 2, 1, 1)),
    TT('a', (2, 3), (1, 2, 1), cols=(3, 2)), TT('a', (2, 2), (1, 1, 1), cols=(2, 2)), TT('a', (1, 2), (1, 2, 1), cols=(2, 1)),
    TT('a', (3,), (1, 1), cols=(2,)),
]


def changed(modes):
  """Mode lists that differ from the given one in one respect."""
  out = [modes]
  for k in range(len(modes)):
    for v in (1, 2, 4):
      if v != modes[k]:
        out.append(modes[:k] + (v,) + modes[k + 1:])
  out += [modes[::-1], modes + (1,), (1,) + modes, modes[:-1], modes[1:], (prod(modes),), modes + (2,)]
  return [m for k, m in enumerate(out) if m and m not in out[:k]]


def seconds(a, tier):
  """Second arguments for a, fitting and not."""
  out = []

  def put(modes, cols, **kw):
    for r in (1, 2):
      out.append(TT('b', modes, r, cols=cols, **kw))
      if len(modes) == 1:
        break
  for m in changed(a.modes):
    if a.cols is None:
      put(m, None)
    elif len(m) == len(a.cols):
      put(m, a.cols)
      put(a.cols, m)
    else:
      more = (1,) * len(m) if len(m) < len(a.cols) else a.cols + (1,) * (len(m) - len(a.cols))
      put(m, more[:len(m)])
  if a.cols is not None:
    for m in changed(a.cols):
      if len(m) == len(a.modes):
        put(a.modes, m)
    put(a.modes, None)
    put(tuple(x * y for x, y in zip(a.modes, a.cols)), None)
  else:
    put(a.modes, a.modes)
    put(a.modes, (1,) * len(a.modes))
  put(a.modes, a.cols, dtype='float32')
  seen, res = set(), []
  for t in out:
    if label(t) not in seen:
      seen.add(label(t))
      res.append(t)
  return res


def rebatched(t, b):
  return TT(t.name, t.modes, t.ranks, cols=t.cols, batch=b, dtype=t.dtype)


def broadcasts(a, b):
  return a.batch is None or b.batch is None or a.batch == b.batch or 1 in (a.batch, b.batch)


def alike(a, b):
  return a.modes == b.modes and a.cols == b.cols and a.dtype == b.dtype


def both_matrices(a, b):
  return a.cols is not None and b.cols is not None


def dense_sum(a, b):
  return lambda x, y: ETT(x.dense() + y.dense(), x.modes, x.cols, out_batch(a, b))


PAIRS = {
    'add': (lambda x, y: t3f.add(x, y), lambda a, b: alike(a, b) and broadcasts(a, b), dense_sum),
    'subtract': (lambda x, y: x - y, lambda a, b: alike(a, b) and broadcasts(a, b),
                 lambda a, b: lambda x, y: ETT(x.dense() - y.dense(), x.modes, x.cols, out_batch(a, b))),
    'multiply': (lambda x, y: t3f.multiply(x, y), lambda a, b: alike(a, b) and broadcasts(a, b),
                 lambda a, b: lambda x, y: ETT(x.dense() * y.dense(), x.modes, x.cols, out_batch(a, b))),
    'inner': (lambda x, y: t3f.flat_inner(x, y), lambda a, b: alike(a, b) and broadcasts(a, b),
              lambda a, b: lambda x, y: scal([(p * q).sum() for p, q in zip(items(x, out_batch(a, b) or 1),
                                                                           items(y, out_batch(a, b) or 1))], out_batch(a, b))),
    'matmul': (lambda x, y: t3f.matmul(x, y),
               lambda a, b: both_matrices(a, b) and a.cols == b.modes and a.dtype == b.dtype and broadcasts(a, b),
               lambda a, b: lambda x, y: ETT(bmm(x.dense(), y.dense()), x.modes, y.cols, out_batch(a, b))),
    'pairwise': (lambda x, y: t3f.pairwise_flat_inner(x, y),
                 lambda a, b: alike(a, b) and a.batch is not None and b.batch is not None,
                 lambda a, b: lambda x, y: np.stack([scal([(p * q).sum() for q in items(y, b.batch)], b.batch)
                                                     for p in items(x, a.batch)])),
    'concat': (lambda x, y: t3f.concat_along_batch_dim([x, y]),
               lambda a, b: alike(a, b) and a.ranks == b.ranks and a.batch is not None and b.batch is not None,
               lambda a, b: lambda x, y: ETT(np.concatenate([x.dense(), y.dense()]), x.modes, x.cols, a.batch + b.batch)),
}
# only what does not fit; the values are the subject of other properties
PROJECTIONS = {
    'project': (lambda x, y: t3f.project(x, y), lambda a, b: alike(a, b) and b.batch is None),
    'project_sum': (lambda x, y: t3f.project_sum(x, y), lambda a, b: alike(a, b) and b.batch is None),
}


def pair_cases(tier):
  out = []
  for a0 in FIRST:
    for b0 in seconds(a0, tier):
      for ba, bb in ((None, None), (2, 2), (2, None), (None, 3), (2, 3), (1, 3), (3, 1), (3, 2)):
        a, b = rebatched(a0, ba), rebatched(b0, bb)
        for n, (f, fits, spec) in PAIRS.items():
          if n in ('pairwise', 'concat') and (ba is None and bb is None) and a0 is not FIRST[0]:
            continue
          name = 'pair %s: %s ; %s' % (n, label(a), label(b))
          if fits(a, b):
            out.append(Case(name, [a, b], f, spec(a, b)))
          elif tier == 'thorough' or (ba, bb) in ((None, None), (2, 2), (2, None)) or alike(a, b):
            out.append(Case(name, [a, b], f, raises=True))
        for n, (f, fits) in PROJECTIONS.items():
          if len(b.modes) > 1 and len(a.modes) > 1 and not fits(a, b) and \
              (tier == 'thorough' or (ba, bb) in ((None, None), (2, None), (2, 2))):
            out.append(Case('pair %s: %s ; %s' % (n, label(a), label(b)), [a, b], f, raises=True))
  return out


def vector(name, modes, r=1, **kw):
  return TT(name, modes, r, cols=(1,) * len(modes), **kw)


def triple_cases(tier):
  """Three and four arguments: one of them does not fit."""
  out = []

  def put(n, args, f, fits):
    if not fits:
      out.append(Case('triple %s: %s' % (n, ' ; '.join(map(label, args))), args, f, raises=True))

  for r in (1, 2):
    A = TT('a', (2, 3), r, cols=(3, 1))
    rows = [(2, 3), (2, 1), (3, 3), (2, 3, 1), (2,), (3, 2), (1, 2, 3), (2, 3, 2)]
    cols = [(3, 1), (3, 2), (1, 1), (3, 1, 1), (3,), (1, 3), (2, 3)]
    for x, y in itertools.product(rows, cols):
      fits = x == A.modes and y == A.cols
      if not fits and x != A.modes and y != A.cols and tier != 'thorough' and r == 2:
        continue
      vx, vy = vector('x', x, r), vector('y', y, r)
      put('bilinear form', [A, vx, vy], lambda A, x, y: t3f.bilinear_form(A, x, y), fits)
      B = TT('b', (3, 1), r, cols=(2, 2))
      put('bilinear form two', [vx, A, B, vector('y', (2, 2), r)], lambda x, A, B, y: ops.bilinear_form_two_mat(x, A, B, y),
          x == A.modes)
      put('bilinear form two', [vector('x', A.modes, r), A, TT('b', y, r, cols=(2,) * len(y)), vector('y', (2, 2), r)],
          lambda x, A, B, y: ops.bilinear_form_two_mat(x, A, B, y), y == A.cols)
      bx, by = vector('x', x, r, batch=2), vector('y', y, r, batch=3)
      put('pairwise with a matrix', [bx, by, A], lambda x, y, A: t3f.pairwise_flat_inner(x, y, A), fits)
      put('bilinear form', [A, bx, vector('y', y, r, batch=2)], lambda A, x, y: t3f.bilinear_form(A, x, y), fits)
    put('bilinear form', [A, vector('x', A.modes, r, batch=2), vector('y', A.cols, r, batch=3)],
        lambda A, x, y: t3f.bilinear_form(A, x, y), False)
    S = TT('a', (2, 3), r, cols=(2, 3))
    for x in rows[1:]:
      put('gram with a matrix', [vector('x', x, r, batch=2), S], lambda x, S: t3f.gram_matrix(x, S), False)
    put('gram with a matrix', [TT('x', (2, 3), r, batch=2), S], lambda x, S: t3f.gram_matrix(x, S), False)
    for kinds in itertools.product((0, 1), repeat=3):
      if all(kinds):
        continue
      args = [TT(n, (2, 3), r, cols=c if k else None) for n, k, c in zip('axy', kinds, ((2, 3), (1, 1), (1, 1)))]
      put('bilinear form kinds', args, lambda A, x, y: t3f.bilinear_form(A, x, y), False)
    for m in ((2, 3, 1), (2,), (3, 2), (2, 2), (1, 3), (2, 3, 2)):
      for v in (None, 2):
        put('project_matmul', [vector('x', (2, 3), r, batch=v), vector('y', (2, 3), r), TT('a', m, r, cols=m)],
            lambda x, y, A: t3f.project_matmul(x, y, A), False)
        if m != (2, 3):
          put('project_matmul', [vector('x', m, r, batch=v), vector('y', (2, 3), r), S],
              lambda x, y, A: t3f.project_matmul(x, y, A), False)
          put('project_matmul', [vector('x', m, r, batch=v), vector('y', m, r), S],
              lambda x, y, A: t3f.project_matmul(x, y, A), False)
    # more than two objects
    t = [TT(n, (2, 3), r) for n in 'ab'] + [TT('c', (2, 1), r)]
    for perm in itertools.permutations(range(3)):
      put('add_n %s' % (perm,), [t[k] for k in perm], lambda *x: t3f.approximate.add_n(list(x), 2), False)
      b = [rebatched(t[k], 2) for k in perm]
      put('concat %s' % (perm,), b, lambda *x: t3f.concat_along_batch_dim(list(x)), False)
  return out


# ------------------------------------------------------------------- others
def other_cases(tier):
  out = []

  def put(name, args, f, kind=True):
    out.append(Case('rejects %s: %s' % (name, ' ; '.join(label(a) if isinstance(a, TT) else 'array %s' % (a.shape,) for a in args)),
                    args, f, raises=kind))

  V = (ValueError,)
  for b, n in itertools.product((1, 2, 3), (1, 2, 3, 4)):
    if b == n:
      continue
    for cols in (None, (2, 2)):
      t = TT('a', (2, 3), 2, cols=cols, batch=b)
      w = Dense('w', (n,))
      put('weights', [t, w], lambda t, w: t3f.multiply_along_batch_dim(t, w))
      put('coefficients of a sum', [t, w], lambda t, w: t3f.approximate.reduce_sum_batch(t, 2, w))
      put('coefficient matrix of a sum', [t, Dense('w', (n, 2))], lambda t, w: t3f.approximate.reduce_sum_batch(t, 2, w))
      one = TT('p', (2, 3), 2, cols=cols)
      put('weights of a projection', [t, one, w], lambda t, p, w: t3f.project_sum(t, p, w))
      put('weight matrix of a projection', [t, one, Dense('w', (n, 2))], lambda t, p, w: t3f.project_sum(t, p, w))
  for k, n in itertools.product((2, 3), (1, 2, 3, 4)):
    if k != n:
      put('coefficients of projections to add', [TT('p', (2, 3), 2), TT('x', (2, 3), 2), Dense('w', (n,))],
          lambda p, x, w, k=k: t3f.add_n_projected([t3f.project(x, p)] * k, w))
  p, q, x = TT('p', (2, 3), 2), TT('q', (2, 3), 2), TT('x', (2, 3), 2)
  xb = TT('x', (2, 3), 2, batch=2)
  put('projections on different points to add', [p, q, x], lambda p, q, x: t3f.add_n_projected([t3f.project(x, p), t3f.project(x, q)]), V)
  put('inner products of projections on different points', [p, q, xb],
      lambda p, q, x: t3f.pairwise_flat_inner_projected(t3f.project(x, p), t3f.project(x, q)), V)
  put('objects that are no projections to add', [p, x], lambda p, x: t3f.add_n_projected([x, t3f.project(x, p)]), V)
  put('objects that are no projections to add', [x], lambda x: t3f.add_n_projected([x, x]), V)
  put('inner products of objects that are no projections', [p, xb],
      lambda p, x: t3f.pairwise_flat_inner_projected(t3f.project(x, p), x), V)
  put('inner products of objects that are no projections', [p, xb],
      lambda p, x: t3f.pairwise_flat_inner_projected(x, t3f.project(x, p)), V)
  # sparse arrays of another shape
  for t, bad in ((TT('a', (2, 3), 2), ((3, 2), (2, 4), (2, 1), (2, 3, 1), (6,), (3, 3))),
                 (TT('a', (2, 3), 2, cols=(2, 2)), ((6, 6), (4, 6), (5, 4), (2, 3), (6, 4, 1), (24,), (6, 1)))):
    for s in bad:
      put('sparse array of shape %s' % (s,), [t, Dense('w', (1,))],
          lambda t, w, s=s: t3f.flat_inner(t, tf.SparseTensor([[0] * len(s)], w, s)))
  # arrays
  for s in ((5, 2), (1, 2), (7, 2), (12, 1), (3, 2), (6,)):
    put('matrix by array', [TT('a', (2, 2), 2, cols=(2, 3)), Dense('x', s)], lambda t, x: t3f.matmul(t, x))
  for s in ((2, 3), (2, 1), (2, 5), (1, 8), (4,)):
    put('array by matrix', [TT('a', (2, 2), 2, cols=(2, 3)), Dense('x', s)], lambda t, x: t3f.matmul(x, t))
  put('tensor by array', [TT('a', (2, 3), 2), Dense('x', (3, 2))], lambda t, x: t3f.matmul(t, x))
  put('array by tensor', [TT('a', (2, 3), 2), Dense('x', (3, 2))], lambda t, x: t3f.matmul(x, t))
  for t in (TT('a', (2, 3), 2), TT('a', (2, 3), 2, cols=(1, 2)), TT('a', (2, 3), 2, batch=2)):
    put('sum with an array', [t, Dense('x', (2, 3))], lambda t, x: t + x)
    put('sum with a number', [t], lambda t: t + 1.0)
    put('inner product with an array', [t, Dense('x', (2, 3))], lambda t, x: t3f.flat_inner(t, x))
    put('inner product with a number', [t], lambda t: t3f.flat_inner(t, 1.0))
  put('product with an array', [TT('a', (2, 3), 2), Dense('x', (3,))], lambda t, x: t * x)
  put('product with a matrix', [TT('a', (2, 3), 2), Dense('x', (2, 3))], lambda t, x: t * x)
  put('weights of a single object', [TT('a', (2, 3), 2), Dense('w', (2,))], lambda t, w: t3f.multiply_along_batch_dim(t, w))
  for b in (None, 2):
    put('transpose of a tensor', [TT('a', (2, 3), 2, batch=b)], lambda t: t3f.transpose(t), V)
  # index counts
  for d in (1, 2, 3):
    modes = (2, 3, 2)[:d]
    for b in (None, 2):
      t = TT('a', modes, 1, batch=b)
      want = d + (b is not None)
      for k in range(1, d + 3):
        if k == want:
          continue
        put('%d entries per index' % k, [t], lambda t, k=k: t3f.gather_nd(t, np.zeros((2, k), np.int64)), V)
        if not (b is not None and k == 1):
          put('%d indices' % k, [t], lambda t, k=k: t[tuple([slice(None)] * k)], V)
  # shapes that do not describe the array
  for sh in ([[2, 2], [3, 3]], [[2, 3], [3, 2]], [[6, 1], [1, 3]], [[1, 1], [1, 1]], [[2, 3], [4]], [[7], [4]]):
    put('matrix shape %s' % (sh,), [Dense('x', (6, 4))], lambda x, sh=sh: t3f.to_tt_matrix(x, sh, max_tt_rank=3))
  return out


def cases(tier):
  out = run_time_cases(tier) + static_cases(tier) + rule_cases() + number_cases()
  out += pair_cases(tier) + triple_cases(tier) + other_cases(tier)
  return list({c.name: c for c in out}.values())
