"""C05: elementwise product and scaling."""
from fractions import Fraction
import numpy as np
import tensorflow as tf
import t3f
from engine.harness import Case
from engine.sym import TT, ETT, Dense
from checks import grid
from checks.c04 import second, out_batch, COMBOS

NUMBERS = [2, -1, 0, -3, 0.5, -0.1, 0.1, 1e-3, -1e4, 7.25, 1, 1e-20, 1e12]


def product(a, b, op='multiply'):
  f = (lambda x, y: t3f.multiply(x, y)) if op == 'multiply' else (lambda x, y: x * y)
  return Case('%s %s, %s' % (op, grid.label(a), grid.label(b)), [a, b], f,
              lambda x, y: ETT(x.dense() * y.dense(), x.modes, x.cols, out_batch(a, b)))


def num_exact(c, dtype):
  # the number as written; in single precision the nearest float is meant
  return Fraction(repr(c)) if not isinstance(c, int) else c


def scale(t, c, how):
  fs = {'multiply': lambda a: t3f.multiply(a, c), 'tt*c': lambda a: a * c, 'c*tt': lambda a: c * a}

  def spec(x):
    d = x.dense()
    k = num_exact(c, t.dtype) if d.dtype == object else float(c)
    return ETT(d * k, x.modes, x.cols, x.batch)
  return Case('%s by %r %s' % (how, c, grid.label(t)), [t], fs[how], spec)


def scale_by_tensor(t, shape, how):
  fs = {'multiply': lambda a, s: t3f.multiply(a, s), 'tt*s': lambda a, s: a * s}
  return Case('%s by scalar tensor %s' % (how, grid.label(t)), [t, Dense('s', (), t.dtype)], fs[how],
              lambda x, s: ETT(x.dense() * s[()], x.modes, x.cols, x.batch))


def cases(tier):
  out = []
  small = lambda t: len(t.modes) < 4
  for ba, bb in COMBOS:
    for a in grid.both('a', tier, batch=ba):
      if small(a) or tier == 'thorough':
        out.append(product(a, second(a, batch=bb)))
    for m, c, ra, rb in (((2, 1, 2, 3), None, (1, 2, 1, 2, 1), (1, 1, 2, 2, 1)), ((1, 2, 1, 2, 3), None, (1, 1, 2, 1, 2, 1), (1, 1, 1, 2, 1, 1)),
                         ((2, 1, 1, 3), (1, 2, 1, 2), (1, 2, 1, 2, 1), (1, 1, 2, 2, 1)),
                         ((1, 2, 1, 1, 2), (1, 1, 1, 2, 3), (1, 1, 2, 1, 2, 1), (1, 1, 1, 2, 1, 1))):
      out.append(product(TT('a', m, ra, cols=c, batch=ba), TT('b', m, rb, cols=c, batch=bb)))
  for a in grid.both('a', 'quick')[1::2] + grid.both('a', 'quick', batch=2)[1::2]:
    if small(a):
      out.append(product(a, second(a), '*'))
  for ba, bb in ((None, None), (2, None), (2, 2)):
    for t in grid.both('a', 'quick', batch=ba, dtype='float32')[3::4]:
      out.append(product(t, second(t, batch=bb)))
  for t in grid.both('a', 'quick')[1::3] + grid.both('a', 'quick', batch=2)[1::3]:
    if small(t):
      out.append(Case('a*a ' + grid.label(t), [t], lambda a: a * a,
                      lambda x: ETT(x.dense() * x.dense(), x.modes, x.cols, x.batch)))
  for a, b in [(TT('a', (3, 4, 2), (1, 5, 4, 1), sparse=8), TT('b', (3, 4, 2), (1, 4, 5, 1), sparse=8)),
               (TT('a', (13, 11), (1, 3, 1), sparse=10), TT('b', (13, 11), (1, 2, 1), sparse=10)),
               (TT('a', (2, 3), (1, 2, 1), batch=9, sparse=12), TT('b', (2, 3), (1, 3, 1), batch=9, sparse=12)),
               (TT('a', (2, 2), (1, 9, 1), cols=(3, 10), sparse=6), TT('b', (2, 2), (1, 2, 1), cols=(3, 10), sparse=6)),
               (TT('a', (2,) * 7, 2, sparse=3), TT('b', (2,) * 7, 2, sparse=3))]:
    out.append(product(a, b))
  # numbers
  ts = grid.both('a', tier) + grid.both('a', tier, batch=2)
  hows = ('multiply', 'tt*c', 'c*tt')
  for i, t in enumerate(ts):
    for j, c in enumerate(NUMBERS):
      if tier == 'thorough' or (i + j) % 3 == 0 or len(t.modes) in (1, 3):
        out.append(scale(t, c, hows[(i + j) % 3]))
    out.append(scale_by_tensor(t, (), ('multiply', 'tt*s')[i % 2]))
  for t in grid.both('a', 'quick', dtype='float32')[1::2] + grid.both('a', 'quick', batch=3, dtype='float32')[1::3]:
    for c in (2, -0.5, 0, 0.1, -3.25):
      out.append(scale(t, c, 'multiply'))
    out.append(scale_by_tensor(t, (), 'multiply'))
  five = TT('a', (2, 1, 2, 3, 2), (1, 2, 1, 2, 2, 1))
  six = TT('a', (2,) * 6, 2)
  for t in (five, six, TT('a', (2,) * 12, 1, sparse=2)):
    out += [scale(t, -2, 'c*tt'), scale(t, 0, 'tt*c'), scale(t, 0.3, 'multiply')]
    if len(t.modes) < 12:
      out.append(scale_by_tensor(t, (), 'multiply'))
  for np_number in (np.float64(0.1), np.float32(0.5), np.int64(-3)):
    t = TT('a', (2, 3), (1, 2, 1))
    out.append(Case('multiply by %s' % type(np_number).__name__, [t],
                    lambda a, c=np_number: t3f.multiply(a, c),
                    lambda x, c=np_number: ETT(x.dense() * (Fraction(repr(float(c))) if x.dense().dtype == object else float(c)),
                                               x.modes)))
  return out
