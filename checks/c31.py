"""C31: derivatives through the operations.

Takes configurations of the other checks and claims that the automatic
derivative of a weighted sum of the dense result, with respect to all cores
and dense arguments, is the derivative of the dense expression.
"""
import copy
from fractions import Fraction
import numpy as np
import tensorflow as tf
import t3f
from engine import terms as T
from engine.harness import Case, all_symbols, as_list, views
from engine.sym import TT, Dense, ETT, norm2
from engine.terms import Term, Unsupported
from checks import c26, grid
from checks.derived import pick, size
from checks.grid import label

# check, first words of the names, configurations per kind (quick, thorough)
SOURCES = [
    ('c02', None, 3, 9),
    ('c04', None, 2, 6),
    ('c05', None, 1, 4),
    ('c06', None, 2, 6),
    ('c07', None, 2, 6),
    ('c09', None, 1, 2),
    ('c10', None, 2, 4),
    ('c11', None, 2, 6),
    ('c22', ('cast',), 2, 4),
    ('c25', ('l2,', 'cores'), 2, 4),
]
TTS = (t3f.TensorTrain, t3f.TensorTrainBatch)


def usable(c):
  return not c.raises and not c.setup and not c.stochastic and not c.numeric and c.spec is not None and \
      c.check is None and any(isinstance(a, TT) for a in c.args) and not any(a.sparse for a in c.args)


def choices(c):
  """Number of values of the integer arguments."""
  n = 1
  for a in c.args:
    if isinstance(a, Dense) and a.is_int and a.hi is not None:
      for lo, hi in np.broadcast(np.broadcast_to(a.lo, a.shape), np.broadcast_to(a.hi, a.shape)):
        n *= int(hi) - int(lo)
  return n


def floats(c):
  """Positions of the arguments that can be varied."""
  return [k for k, a in enumerate(c.args) if isinstance(a, TT) or not a.is_int]


def diff(root, seeds):
  """Derivatives of a term with respect to variables (reverse order)."""
  bar = {}
  if isinstance(root, Term):
    bar[root.id] = 1
  for t in reversed(T.postorder([root])):
    g = bar.get(t.id)
    if g is None or t.op == 'var':
      continue
    a = t.args
    if t.op == 'add':
      parts = [(x, g) for x in a]
    elif t.op == 'mul':
      parts = [(a[0], T.mul(g, a[1])), (a[1], T.mul(g, a[0]))]
    elif t.op == 'ite':
      parts = [(a[1], T.ite(a[0], g, 0)), (a[2], T.ite(a[0], 0, g))]
    elif t.op == 'toreal':
      parts = []
    else:
      raise Unsupported('derivative of ' + t.op)
    for x, h in parts:
      if isinstance(x, Term):
        bar[x.id] = T.add(bar[x.id], h) if x.id in bar else h
  return [bar.get(s.id, 0) for s in seeds]


def dense_outputs(c, vs):
  return [np.asarray(e.dense if isinstance(e, ETT) else e) for e in as_list(c.spec(*vs))]


def arrays(c, vs):
  """Arrays of the arguments that can be varied."""
  out = []
  for k in floats(c):
    out += list(vs[k].cores) if isinstance(c.args[k], TT) else [vs[k]]
  return out


def gradient_of(c, vs, ws):
  """Exact derivatives, shaped like the arguments."""
  total = 0
  for e, w in zip(dense_outputs(c, vs), ws):
    for x, y in zip(e.reshape(-1), np.asarray(w).reshape(-1)):
      total = T.add(total, T.mul(x, y))
  out = []
  for a in arrays(c, vs):
    out.append(shaped(diff(total, list(a.reshape(-1))), a.shape))
  return out


def shaped(xs, shape):
  out = np.empty(len(xs), dtype=object)
  for k, x in enumerate(xs):
    out[k] = x
  return out.reshape(shape)


def evaluated(d, exact, vs):
  """exact(views) for symbolic views; its value for numeric ones."""
  vals = []
  for a, v in zip(d.args, vs):
    vals += list(v.cores) if isinstance(a, TT) else [v]
  if any(np.asarray(x).dtype == object for x in vals):
    return exact(vs)
  syms = all_symbols(d)
  env = {}
  for s, v in zip(syms, vals):
    for x, y in zip(s.reshape(-1), np.asarray(v).reshape(-1)):
      if isinstance(x, Term):
        env[x] = y.item()
  return [np.array(T.evaluate(list(g.reshape(-1)), env), dtype=float).reshape(g.shape) for g in exact(views(d, syms))]


def flat_tensors(c, args, which=None):
  out = []
  for k in floats(c) if which is None else which:
    out += list(args[k].tt_cores) if isinstance(args[k], TTS) else [args[k]]
  return out


def through(src, c):
  n = len(c.args)
  T.reset()
  shapes = [e.shape for e in dense_outputs(c, views(c, all_symbols(c)))]
  dt = [a.dtype for a in c.args if not a.dtype.startswith('int')][0]
  weights = [Dense('weight%d' % k, s, dt) for k, s in enumerate(shapes)]

  def prog(*args):
    xs = flat_tensors(c, args)
    with tf.GradientTape() as tape:
      tape.watch(xs)
      total = 0
      for o, w in zip(as_list(c.prog(*args[:n])), args[n:]):
        total += tf.reduce_sum(tf.cast(t3f.full(o) if isinstance(o, TTS) else o, dt) * w)
    return tape.gradient(total, xs, unconnected_gradients='zero')

  d = copy.copy(c)
  d.name = '%s: %s' % (src.upper(), c.name)
  d.args, d.prog = list(c.args) + weights, prog
  d.spec = lambda *vs: evaluated(d, lambda v: gradient_of(c, v[:n], v[n:]), vs)
  d.asserts = False
  d.meta = False
  return d


def at(c, zero):
  """Factors: the derivative at zero is a case of its own."""
  d = copy.copy(c)
  d.assume = lambda *vs: [T.eq(vs[1][()], 0) if zero else T.not_(T.eq(vs[1][()], 0))]
  d.name = c.name + (' at zero' if zero else ' other than zero')
  d.points = ()
  return d


def twice(src, c):
  """The derivative of the derivative along a direction of the arguments."""
  n = len(c.args)
  one = through(src, c)
  m = len(one.args)
  dirs = []
  for k in floats(c):
    b = copy.copy(c.args[k])
    b.name = 'dir' + b.name
    dirs.append(b)

  def prog(*args):
    xs = flat_tensors(c, args)
    with tf.GradientTape() as tape:
      tape.watch(xs)
      gs = one.prog(*args[:m])
      ds = flat_tensors(c, args[m:], range(len(dirs)))
      total = tf.add_n([tf.reduce_sum(g * e) for g, e in zip(gs, ds)])
    return tape.gradient(total, xs, unconnected_gradients='zero')

  def exact(vs):
    ds = []
    for b, v in zip(dirs, vs[m:]):
      ds += list(v.cores) if isinstance(b, TT) else [v]
    total = 0
    for g, e in zip(gradient_of(c, vs[:n], vs[n:m]), ds):
      for x, y in zip(g.reshape(-1), e.reshape(-1)):
        total = T.add(total, T.mul(x, y))
    return [shaped(diff(total, list(a.reshape(-1))), a.shape) for a in arrays(c, vs)]

  d = copy.copy(one)
  d.name = '%s twice: %s' % (src.upper(), c.name)
  d.args, d.prog = list(one.args) + dirs, prog
  d.spec = lambda *vs: evaluated(d, exact, vs)
  return d


def norm(t, eps):
  """The norm is a root: 2 * norm * derivative = derivative of the square."""
  def prog(a):
    xs = list(a.tt_cores)
    with tf.GradientTape() as tape:
      tape.watch(xs)
      y = t3f.frobenius_norm(a, epsilon=eps, differentiable=True)
      total = tf.reduce_sum(y)
    g = tape.gradient(total, xs)
    if t.batch is not None:
      return [2 * x * tf.reshape(y, [-1] + [1] * (len(x.shape) - 1)) for x in g] + [y * y]
    return [2 * x * y for x in g] + [y * y]

  def exact(vs):
    e = vs[0].dense()
    total = 0
    for x in e.reshape(-1):
      total = T.add(total, T.mul(x, x))
    sq = [np.asarray(norm2(x) + Fraction(eps))[()] for x in (e if t.batch is not None else [e])]
    return [shaped(diff(total, list(a.reshape(-1))), a.shape) for a in vs[0].cores] + [
        shaped(sq, (t.batch,) if t.batch is not None else ())]
  d = Case('norm eps %g %s' % (eps, label(t)), [t], prog, lambda *vs: evaluated(d, exact, vs))
  return d


def cases(tier):
  out, names = [], set()
  more = tier == 'thorough'

  def put(d):
    if d.name not in names:
      names.add(d.name)
      out.append(d)
  for src, words, few, many in SOURCES:
    for c in pick(src, words, many if more else few, usable):
      if size(c) > (150 if more else 100) or 'whole numbers' in c.name or choices(c) > (60 if more else 30):
        continue
      d = through(src, c)
      if 'by scalar tensor' in c.name:
        put(at(d, False))
      else:
        put(d)
  for src, words, limit in (('c02', None, 20), ('c05', ('multiply', '*', 'a*a'), 30), ('c06', None, 30), ('c07', None, 30), ('c25', ('l2,',), 20)):
    for c in pick(src, words, 3 if more else 1, usable):
      if size(c) <= limit * (2 if more else 1) and 'scalar' not in c.name:
        put(twice(src, c))
  for src, masks in (('c02', ('n', 'nr', 'nrb')), ('c04', ('n', 'nr', 'r')), ('c05', ('n', 'nr')), ('c06', ('n', 'r', 'nr')),
                     ('c07', ('n', 'r', 'nr')), ('c09', ('n', 'nr')), ('c10', ('r', 'nr')), ('c11', ('n', 'r', 'nr'))):
    for c in pick(src, ('gather',) if src == 'c10' else None, 1, lambda c: usable(c) and c26.usable(c)):
      if size(c) > 60 or 'scalar tensor' in c.name or choices(c) > 20:
        continue
      for m in masks:
        if not c26.refused(src, c, m):
          h = c26.hidden(c, m)
          if h is not None:
            h.name = '?%s %s' % (m, c.name)
            h.graph_only = True
            put(through(src, h))
  zero = Dense('s', ())
  for t in (TT('a', (3,), 1), TT('a', (2, 3), (1, 2, 1)), TT('a', (2, 2), 1, cols=(1, 2)), TT('a', (2, 2, 2), 1, batch=2)):
    put(at(through('c05', Case('factor %s' % label(t), [t, zero], lambda a, s: t3f.multiply(a, s),
                               lambda x, s: ETT(x.dense() * s[()], x.modes, x.cols, x.batch))), True))
  for t in grid.both('a', tier) + grid.both('a', tier, batch=2):
    if len(t.modes) < 4 or more:
      put(norm(t, 0.25))
  return out
