"""C25: regularisers."""
import numpy as np
import tensorflow as tf
import t3f
from engine import fork
from engine.harness import Case
from engine.sym import TT, Dense
from engine.z3conv import z3
from checks import grid

PENALTIES = {
    'squares': (lambda c: tf.reduce_sum(c * c), lambda c: np.sum(c * c)),
    'sum': (lambda c: tf.reduce_sum(c), lambda c: np.sum(c)),
    'cubes plus one': (lambda c: tf.reduce_sum(c * c * c) + 1, lambda c: np.sum(c * c * c) + 1),
    'first entry': (lambda c: tf.reshape(c, [-1])[0], lambda c: c.reshape(-1)[0]),
}


def norm2(v):
  d = v.dense()
  if v.batch is None:
    return np.sum(d * d)
  return np.array([np.sum(x * x) for x in d], dtype=object if d.dtype == object else None)


def scaled(name, t, make, ref):
  """The scale is a symbolic tensor, or a Python number."""
  s = Dense('s', (), t.dtype)
  out = [Case('%s, tensor scale, %s' % (name, grid.label(t)), [t, s],
              lambda a, k: make(k)(a), lambda x, k: k * ref(x))]
  for k in (0.5, 3.0, np.float32(0.25), np.float64(1.5)):
    out.append(Case('%s, scale %r, %s' % (name, k, grid.label(t)), [t],
                    lambda a, k=k: make(k)(a), lambda x, k=k: float(k) * ref(x)))
  return out


def disabled(name, t, make):
  def prog(a):
    return tf.constant([make(0.0)(a) is None, make(-0.0)(a) is None, make(np.float32(0))(a) is None,
                        make(0.5)(a) is not None])
  return Case('%s, scale 0, %s' % (name, grid.label(t)), [t], prog,
              check=lambda S, vs, outs: [('disabled', outs[0], True, 'bool')])


def any_scale(name, make, fn):
  """All real scales: rejected exactly when negative, disabled exactly at zero."""
  x = t3f.tensor_ones((2, 3), dtype=tf.float64)

  def prog(v):
    f = make(v['scale'])
    off = f(x) is None
    s = v['scale']
    if off:
      return [('scale of a disabled regulariser', s, 0.0)]
    # not equal to zero, seen as a fact about the sign of the square
    return [('enabled', bool(s > 0), True)]
  return fork.PathCase('%s, every real scale' % name, ['scale'], prog, lambda z: z['scale'] >= 0, lo=None, sort='R',
                       functions=['regularizers:' + fn])


def any_integer(name, make, fn):
  def prog(v):
    make(v['scale'])
    return []
  return fork.PathCase('%s, every integer scale' % name, ['scale'], prog, lambda z: z3.BoolVal(False), lo=None,
                       functions=['regularizers:' + fn])


def cases(tier):
  out = []
  l2 = t3f.l2_regularizer
  ts = grid.both('a', tier) + grid.both('a', 'quick', dtype='float32')[1::3]
  ts += [TT('a', (2, 2, 1, 3), (1, 2, 2, 2, 1)), TT('a', (2, 1, 2, 2), (1, 2, 1, 2, 1), cols=(1, 2, 2, 1)),
         TT('a', (3, 4, 2), (1, 7, 5, 1), sparse=8), TT('a', (2,) * 7, 2, sparse=4)]
  for t in ts:
    if t.sparse is None:
      out += scaled('l2', t, l2, norm2)
      out.append(disabled('l2', t, l2))
    for n in PENALTIES:
      if n in ('squares', 'cubes plus one') or tier == 'thorough' or len(t.modes) == 2:
        p, q = PENALTIES[n]
        make = lambda s, p=p: t3f.cores_regularizer(p, s)
        out += scaled('cores ' + n, t, make, lambda x, q=q: sum(q(c) for c in x.cores))
    out.append(disabled('cores', t, lambda s: t3f.cores_regularizer(PENALTIES['squares'][0], s)))
  for t in grid.both('a', 'quick', batch=2)[1::2]:
    out += scaled('l2', t, l2, norm2)
  cr = lambda s: t3f.cores_regularizer(PENALTIES['squares'][0], s)
  for n, m, fn in (('l2', l2, 'l2_regularizer'), ('cores', cr, 'cores_regularizer')):
    out.append(any_scale(n, m, fn))
    out.append(any_integer(n, m, fn))
    for k in (0, 1, -2, True, np.int64(3), np.int32(0)):
      out.append(Case('%s rejects the integer %s %s' % (n, type(k).__name__, k), [TT('a', (2,), (1, 1))],
                      lambda a, m=m, k=k: m(k)(a), raises=(ValueError,)))
    for k in (-0.5, -1e-300, np.float32(-1), float('-inf')):
      out.append(Case('%s rejects %s %s' % (n, type(k).__name__, k), [TT('a', (2,), (1, 1))],
                      lambda a, m=m, k=k: m(k)(a), raises=(ValueError,)))
  # scopes are only names; the same regulariser is applied twice, to two objects
  a, b = TT('a', (2, 3), (1, 2, 1)), TT('b', (3, 2, 2), (1, 2, 3, 1))
  for n, m, r in (('l2', l2, norm2), ('cores', lambda s, **k: t3f.cores_regularizer(PENALTIES['squares'][0], s, **k),
                                     lambda x: sum(np.sum(c * c) for c in x.cores))):
    def prog(x, y, m=m):
      f = m(0.5, scope='some_scope')
      return [f(x), f(y), f(x)]
    out.append(Case('%s twice in a scope' % n, [a, b], prog, lambda x, y, r=r: [0.5 * r(x), 0.5 * r(y), 0.5 * r(x)]))
  return out
