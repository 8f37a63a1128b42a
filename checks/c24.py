"""C24: the dense layer with TT weights."""
import numpy as np
import tensorflow as tf
import t3f
from engine import interp
from engine import sym
from engine import terms as T
from engine.harness import Case
from engine.sym import TT, Dense


class Layer(object):
  """A real layer; its variables get their (symbolic) values in the program."""

  def __init__(self, rows, cols, rank, **kw):
    self.layer = t3f.nn.KerasDense(list(rows), list(cols), tt_rank=rank, **kw)
    if not self.layer.trainable_variables:
      # a layer may as well create its variables when first called
      self.layer(tf.zeros((1, int(np.prod(rows)))))
    train = [plain(v) for v in self.layer.trainable_variables]
    self.matrix = getattr(self.layer, 'matrix', None)
    if self.matrix is None:
      self.matrix = t3f.TensorTrain([v for v in train if len(v.shape) == 4], convert_to_tensors=False)
    self.cores = [plain(v) for v in self.matrix.tt_cores]
    self.others = [v for v in train if not any(v is c for c in self.cores)]
    self.train = train

  def symbol_of(self, handle):
    for v in self.cores + self.others:
      if v.handle is handle:
        return interp.to_exact(v.numpy())
    return None

  def assign(self, w, b):
    for v, c in zip(self.cores, w.tt_cores):
      v.assign(c)
    if b is not None:
      self.others[0].assign(b)


def plain(v):
  return v if isinstance(v, tf.Variable) else v.value


def elementwise(name):
  def f(s, x):
    if s.symbolic:
      return interp.opaque_elementwise(s.ctx, name, x)
    return interp.ELEMENTWISE[name](x)
  return f


def soft(s, x):
  return interp.opaque_rows(s.ctx, 'Softmax', interp.softmax, x) if s.symbolic else interp.softmax(x)


def relu(s, x):
  return interp.lift1(lambda v: T.maximum(v, 0), x) if s.symbolic else np.maximum(x, 0)


ACTIVATIONS = {
    'None': (None, lambda s, x: x),
    'linear': ('linear', lambda s, x: x),
    'relu': ('relu', relu),
    'tf.nn.relu': (tf.nn.relu, relu),
    'square plus': (lambda x: x * x + 3 * x, lambda s, x: x * x + x * 3),
    'tanh': ('tanh', elementwise('Tanh')),
    'sigmoid': ('sigmoid', elementwise('Sigmoid')),
    'softplus': ('softplus', elementwise('Softplus')),
    'softmax': ('softmax', soft),
}


def add_bias(y, b):
  return y if b is None else y + b.reshape((1, -1))


def setup(rows, cols, ranks, act='None', **kw):
  a = ACTIVATIONS[act][0]
  return lambda: Layer(rows, cols, list(ranks), activation=a, **kw)


def call(rows, cols, ranks, n, act='None', bias=True, unknown=False, init='glorot', start=0.1):
  x = Dense('x', (n, int(np.prod(rows))), 'float32', unknown=(0,) if unknown else ())
  w = TT('w', rows, ranks, cols=cols, dtype='float32')
  b = Dense('b', (int(np.prod(cols)),), 'float32')

  def prog(obj, x, w, b=None):
    obj.assign(w, b)
    return obj.layer(x)

  def check(s, vs, outs):
    y = add_bias(vs[1] @ vs[2].dense(), vs[3] if bias else None)
    return [('layer', outs[0], ACTIVATIONS[act][1](s, y))]

  name = 'call %s|%s r%s rows %s%s act %s%s' % (
      rows, cols, ranks[1:-1], n, '?' if unknown else '', act, '' if bias else ' no bias') + ('' if init == 'glorot' else ' ' + init) + (
          '' if start == 0.1 else ' start %s' % start)
  return Case(name, [x, w] + ([b] if bias else []), prog, check=check,
              setup=setup(rows, cols, ranks, act, use_bias=bias, kernel_initializer=init, bias_initializer=start))


def slope(act, y):
  """Derivative of an activation; y are symbolic or numeric values."""
  if act == 'square plus':
    return y * 2 + 3
  if act == 'relu':
    if y.dtype == object:
      return interp.lift1(lambda v: T.ite(T.lt(0, v), 1, 0), y)
    return (y > 0).astype(float)
  return y * 0 + 1


def gradient(rows, cols, ranks, n, bias=True, act='None', unknown=False):
  """The derivative of sum(c * layer(x)) with respect to the input and all that
  is trained, along an arbitrary direction of the weights."""
  x = Dense('x', (n, int(np.prod(rows))), 'float32', unknown=(0,) if unknown else ())
  c = Dense('c', (n, int(np.prod(cols))), 'float32')
  w = TT('w', rows, ranks, cols=cols, dtype='float32')
  d = TT('d', rows, ranks, cols=cols, dtype='float32')
  b = Dense('b', (int(np.prod(cols)),), 'float32')

  def prog(obj, x, c, w, d, b=None):
    obj.assign(w, b)
    with tf.GradientTape(watch_accessed_variables=False) as tape:
      tape.watch(obj.train + [x])
      loss = tf.reduce_sum(c * obj.layer(x))
    gs = tape.gradient(loss, [x] + obj.train)
    g = dict(zip([v.ref() for v in obj.train], gs[1:]))
    out = [tf.reduce_sum(g[v.ref()] * e) for v, e in zip(obj.cores, d.tt_cores)]
    return [gs[0]] + out + [g[v.ref()] for v in obj.others]

  def spec(obj, x, c, w, d, b=None):
    out = []
    c = c * slope(act, add_bias(x @ w.dense(), b))
    for k in range(len(rows)):
      mixed = sym.TTVal([d.cores[j] if j == k else w.cores[j] for j in range(len(rows))], True, None)
      out.append(np.sum(c * (x @ mixed.dense())))
    return [c @ w.dense().T] + out + ([np.sum(c, axis=0)] if bias else [])

  return Case('gradient %s|%s r%s rows %s%s%s%s' % (rows, cols, ranks[1:-1], n, '' if bias else ' no bias',
                                                '' if act == 'None' else ' act ' + act, '?' if unknown else ''),
              [x, c, w, d] + ([b] if bias else []), prog, spec,
              setup=setup(rows, cols, ranks, act, use_bias=bias))


def parts(rows, cols, ranks, bias=True, init='glorot', start=0.125):
  """Trained variables, sizes, initial bias, reported output shape."""
  w = TT('w', rows, ranks, cols=cols, dtype='float32')
  x = Dense('x', (2, int(np.prod(rows))), 'float32')

  def prog(obj, x, w):
    m = obj.matrix
    facts = [
        len(obj.train) == len(rows) + (1 if bias else 0),
        all(sum(v is c for v in obj.train) == 1 for c in obj.cores),
        len(obj.others) == (1 if bias else 0),
        m.is_tt_matrix(),
        [s.as_list() for s in m.get_raw_shape()] == [list(rows), list(cols)],
        m.get_tt_ranks().as_list() == list(ranks),
        tuple(int(v) for v in obj.layer.compute_output_shape((7, 5))) == (7, int(np.prod(cols))),
        obj.layer.compute_output_shape((None, 5))[0] is None,
        obj.layer(x).shape.as_list() == [2, int(np.prod(cols))],
    ]
    return [tf.constant(np.array(facts, np.int32))] + [v.read_value() for v in obj.others]

  def spec(obj, x, w):
    return [np.ones(9, np.int32)] + ([np.full((int(np.prod(cols)),), start, np.float32).astype(np.float64)] if bias else [])

  return Case('parts %s|%s r%s%s %s start %s' % (rows, cols, ranks[1:-1], '' if bias else ' no bias', init, start),
              [x, w], prog, spec,
              setup=setup(rows, cols, ranks, use_bias=bias, kernel_initializer=init, bias_initializer=start))


class Two(object):

  def __init__(self):
    self.one = Layer((2, 3), (3, 2), 2)
    self.two = Layer((2, 3), (3, 2), 2)

  def symbol_of(self, handle):
    v = self.one.symbol_of(handle)
    return self.two.symbol_of(handle) if v is None else v


def two_layers():
  """Weights of one layer do not change when the other's do; stacking works."""
  w1, w2 = [TT(n, (2, 3), (1, 2, 1), cols=(3, 2), dtype='float32') for n in ('w', 'z')]
  b1, b2 = [Dense(n, (6,), 'float32') for n in ('b', 'c')]
  x = Dense('x', (2, 6), 'float32')

  def prog(obj, x, w, b, z, c):
    obj.one.assign(w, b)
    obj.two.assign(z, c)
    return [obj.one.layer(x), obj.two.layer(obj.one.layer(x)),
            tf.constant(int(obj.one.layer.name != obj.two.layer.name))]

  def spec(obj, x, w, b, z, c):
    y = x @ w.dense() + b.reshape((1, -1))
    return [y, y @ z.dense() + c.reshape((1, -1)), np.int32(1)]

  return Case('two layers', [x, w1, b1, w2, b2], prog, spec, setup=Two)


def rejects(name, make):
  return Case('rejects ' + name, [Dense('x', (2, 6), 'float32')], lambda x: make()(x), raises=(ValueError,))


SHAPES = [
    ((4,), (3,), (1, 1)),
    ((2, 3), (3, 2), (1, 2, 1)),
    ((3, 2), (1, 4), (1, 3, 1)),
    ((2, 1, 3), (2, 2, 1), (1, 2, 3, 1)),
    ((2, 2, 2, 1), (1, 2, 1, 3), (1, 2, 3, 1, 1)),
]
MORE = [
    ((5, 2), (2, 3), (1, 4, 1)),
    ((1, 1), (3, 2), (1, 1, 1)),
    ((3, 2, 2), (2, 2, 3), (1, 2, 2, 1)),
    ((2, 2, 2, 2), (2, 1, 2, 2), (1, 2, 2, 2, 1)),
    ((2, 1, 2, 1, 2), (1, 2, 1, 2, 1), (1, 2, 1, 2, 2, 1)),
]


def cases(tier):
  out = []
  shapes = SHAPES + (MORE if tier == 'thorough' else [])
  for r, c, k in shapes:
    for bias in (True, False):
      out.append(call(r, c, k, 2, bias=bias))
      out.append(call(r, c, k, 3, bias=bias, unknown=True))
      out.append(call(r, c, k, 1, 'square plus', bias=bias))
      out.append(gradient(r, c, k, 2, bias))
      out.append(gradient(r, c, k, 2, bias, unknown=True))
      if len(r) < 3 or tier == 'thorough' and len(r) < 4:
        out.append(gradient(r, c, k, 1, bias, 'square plus'))
      out.append(parts(r, c, k, bias))
    out.append(call(r, c, k, 1))
  for bias in (True, False):
    out.append(gradient((3,), (2,), (1, 1), 1, bias, 'relu'))
    out.append(gradient((2, 1), (1, 2), (1, 2, 1), 1, bias, 'relu'))
    out.append(gradient((1, 2), (1, 1), (1, 2, 1), 2, bias, 'relu', unknown=True))
  for act in sorted(ACTIVATIONS):
    for r, c, k in shapes[1:4] if tier == 'quick' else shapes:
      for bias in (True, False):
        if act not in ('None', 'square plus'):
          out.append(call(r, c, k, 2, act, bias, unknown=act in ('tanh', 'relu') and bias))
  r, c, k = SHAPES[1]
  for init in ('glorot', 'he', 'lecun'):
    out.append(parts(r, c, k, True, init, 0.0))
    out.append(parts(r, c, k, True, init, -1.5))
    if init != 'glorot':
      out.append(parts(r, c, k, False, init))
    out.append(call(r, c, k, 3, init=init, bias=init == 'he', act='relu'))
  for start in (0., 0, 1, -2.5):
    for r, c, k in shapes[1:4]:
      for bias in (True, False):
        out.append(call(r, c, k, 2, bias=bias, start=start))
      out.append(call(r, c, k, 2, 'relu', start=start, unknown=True))
  out.append(two_layers())
  D = lambda **kw: t3f.nn.KerasDense([2, 3], [3, 2], 2, **kw)
  out.append(rejects('an unknown weight initialiser', lambda: D(kernel_initializer='xavier')))
  out.append(rejects('an empty weight initialiser', lambda: D(kernel_initializer=None)))
  out.append(rejects('an unknown activation', lambda: D(activation='no such thing')))
  out.append(rejects('a wrong input size', lambda: t3f.nn.KerasDense([2, 2], [3, 2], 2)))
  out.append(rejects('mode lists of different length', lambda: t3f.nn.KerasDense([2, 3], [3, 2, 1], 2)))
  return out
