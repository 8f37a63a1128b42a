"""C28: arguments stay as they are, separate calls do not interfere."""
import copy
import itertools
import numpy as np
import tensorflow as tf
import t3f
from engine import interp
from engine.harness import Case, Out, as_list
from engine.sym import TT, Dense, ETT
from checks.derived import pick

SOURCES = [('c%02d' % k, None, 2, 6) for k in (2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15)]
SOURCES += [('c16', None, 1, 3), ('c17', None, 1, 3), ('c18', None, 1, 2), ('c19', None, 2, 4), ('c20', None, 2, 4),
            ('c22', None, 2, 4), ('c25', None, 1, 2)]
PLAIN = ('c02', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c16', 'c17', 'c20', 'c22', 'c25')
TTS = (t3f.TensorTrain, t3f.TensorTrainBatch)


def usable(c):
  return not c.raises and not c.setup and not c.stochastic and bool(c.args)


def state(x):
  """Everything an object says about itself, by identity where possible."""
  if isinstance(x, TTS):
    s = [type(x), x.ndims(), x.is_tt_matrix(), x.dtype, tuple(tuple(r.as_list()) for r in x.get_raw_shape()),
         tuple(x.get_tt_ranks().as_list()), len(x.tt_cores)] + [id(c) for c in x.tt_cores]
    s.append(x.batch_size if isinstance(x, t3f.TensorTrainBatch) else None)
    s.append(sorted(k for k in vars(x)))
    return s
  return [id(x)]


def outputs(o):
  """Flat list of tensors of a result."""
  out = []
  for x in as_list(o):
    out += list(x.tt_cores) if isinstance(x, TTS) else [x]
  return [tf.convert_to_tensor(x) for x in out]


def untouched(src, c):
  def prog(*args):
    before = [state(a) for a in args]
    keep = [a for a in args]
    first = c.prog(*args)
    shown = [state(x) for x in as_list(first)]
    one = outputs(first)
    second = outputs(c.prog(*args))
    again = outputs(first)
    after = [state(a) for a in args]
    facts = [before == after, shown == [state(x) for x in as_list(first)], len(one) == len(second) == len(again),
             all(a is b for a, b in zip(args, keep))]
    held = [a for a in args if isinstance(a, TTS)]
    return [tf.constant(facts), tf.constant(len(one))] + one + second[:len(one)] + again[:len(one)] + held

  def check(S, vs, outs):
    n = int(np.asarray(interp.conc(np.asarray(outs[1])) if S.symbolic else outs[1]))
    out = [('state of the arguments', outs[0], True, 'bool')]
    one, two, again, held = outs[2:2 + n], outs[2 + n:2 + 2 * n], outs[2 + 2 * n:2 + 3 * n], outs[2 + 3 * n:]
    for k in range(n):
      out += [('second call %d' % k, two[k], one[k]), ('first result %d' % k, again[k], one[k])]
    k = 0
    for v, a in zip(vs, c.args):
      if isinstance(a, TT):
        for i, (x, y) in enumerate(zip(held[k].cores, v.cores)):
          out.append(('argument %d core %d' % (k, i), x, y))
        k += 1
    return out

  d = copy.copy(c)
  d.name = '%s: %s' % (src.upper(), c.name)
  d.prog, d.spec, d.check, d.extra, d.numeric, d.meta = prog, None, check, None, None, False
  d.asserts = False
  return d


def between(src, c):
  """A call on other values of the same sizes comes in between."""
  n = len(c.args)
  other = []
  for a in c.args:
    b = copy.copy(a)
    b.name = a.name + 'other'
    other.append(b)

  def prog(*args):
    return [tf.identity(x) if tf.is_tensor(x) else x for part in (args[:n], args[n:], args[:n])
            for x in as_list(c.prog(*part))]

  def spec(*vs):
    return [x for part in (vs[:n], vs[n:], vs[:n]) for x in as_list(c.spec(*part))]

  d = copy.copy(c)
  d.name = '%s in between: %s' % (src.upper(), c.name)
  d.args, d.prog, d.spec, d.numeric = list(c.args) + other, prog, spec, None
  d.asserts = False
  return d


class Held(object):
  """TT variables; operations on them must leave the variables alone."""

  def __init__(self, specs):
    self.vars = []
    for k, t in enumerate(specs):
      z = t.build([tf.zeros(s.shape, s.dtype) for s in t.specs()])
      cls = t3f.TensorTrain if t.batch is None else t3f.TensorTrainBatch
      self.vars.append(cls([tf.Variable(c) for c in z.tt_cores], z.get_raw_shape(), z.get_tt_ranks(),
                           convert_to_tensors=False))

  def symbol_of(self, handle):
    for v in self.vars:
      for c in v.tt_cores:
        if c.handle is handle:
          return interp.to_exact(c.numpy())
    return None


def variables(src, c):
  """The same operation on variables: afterwards they hold what they held."""
  def prog(obj, *args):
    use = []
    k = 0
    for a in args:
      if isinstance(a, TTS):
        t3f.assign(obj.vars[k], a)
        use.append(obj.vars[k])
        k += 1
      else:
        use.append(a)
    before = [state(v) for v in obj.vars]
    c.prog(*use)
    facts = [before == [state(v) for v in obj.vars], all(v.is_variable() for v in obj.vars)]
    return [tf.constant(facts)] + [x.read_value() for v in obj.vars for x in v.tt_cores]

  def check(S, vs, outs):
    flat = [x for v, a in zip(vs[1:], c.args) if isinstance(a, TT) for x in v.cores]
    return [('state of the variables', outs[0], True, 'bool')] + \
        [('variable %d' % k, o, x) for k, (o, x) in enumerate(zip(outs[1:], flat))]

  d = copy.copy(c)
  d.name = '%s variables: %s' % (src.upper(), c.name)
  d.prog, d.spec, d.check, d.extra, d.numeric, d.meta = prog, None, check, None, None, False
  d.setup = lambda: Held([a for a in c.args if isinstance(a, TT)])
  d.asserts = False
  return d


def same(a, b):
  if isinstance(a, dict):
    return sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
  if isinstance(a, (list, tuple)):
    return type(a) == type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  if isinstance(a, np.ndarray):
    return a.dtype == b.dtype and a.shape == b.shape and bool(np.all(a == b))
  if isinstance(a, TTS) or tf.is_tensor(a) or a is None:
    return a is b
  if type(a) != type(b):
    return False
  return bool(a == b)


def dup(x):
  if isinstance(x, dict):
    return {k: dup(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)):
    return type(x)(dup(v) for v in x)
  if isinstance(x, np.ndarray):
    return x.copy()
  return x


def plain(name, f, given, t=None):
  """Lists, arrays and dictionaries passed along are not changed."""
  args = [t or TT('a', (2, 3, 2), (1, 2, 2, 1))]

  def prog(a):
    g = given(a)
    before = dup(g)
    r = [outputs_any(f(a, g)) for _ in range(2)]
    return [tf.constant([same(before, g), r[0] == r[1]])]
  return Case('given ' + name, args, prog, check=lambda S, vs, outs: [('given objects', outs[0], True, 'bool')])


def outputs_any(o):
  """Sizes of the results, to see that the second call was the same."""
  out = []
  for x in as_list(o):
    out.append([tuple(c.shape.as_list()) for c in x.tt_cores] if isinstance(x, TTS) else tuple(x.shape))
  return out


def given_cases():
  out = []
  m = TT('a', (2, 2), (1, 2, 1), cols=(3, 2))
  b = TT('a', (2, 3), (1, 2, 1), batch=3)
  for n, mk in (('list', list), ('array', np.array), ('tuple', tuple)):
    caps = mk([1, 2, 2, 1])
    out += [
        plain('rank caps of round, ' + n, lambda a, g: t3f.round(a, g), lambda a, c=caps: c),
        plain('rank caps of to_tt_tensor, ' + n, lambda a, g: t3f.to_tt_tensor(t3f.full(a), g), lambda a, c=caps: c),
        plain('large rank caps, ' + n, lambda a, g: t3f.round(a, g), lambda a, k=mk: k([1, 9, 9, 1])),
        plain('short rank caps, ' + n, lambda a, g: t3f.round(t3f.expand_batch_dim(a), g), lambda a, k=mk: k([1, 2, 1, 1])),
    ]
    for f in ('random_tensor', 'tensor_with_random_cores', 'random_tensor_batch', 'tensor_batch_with_random_cores'):
      out.append(plain('shape and ranks of %s, %s' % (f, n), lambda a, g, f=f: getattr(t3f, f)(g[0], g[1]),
                       lambda a, k=mk: [k([2, 3, 2]), k([1, 2, 2, 1])]))
      out.append(plain('inner ranks of %s, %s' % (f, n), lambda a, g, f=f: getattr(t3f, f)(g[0], g[1]),
                       lambda a, k=mk: [k([2, 3, 2]), 5]))
    for f in ('random_matrix', 'matrix_with_random_cores', 'random_matrix_batch', 'matrix_batch_with_random_cores',
              'glorot_initializer', 'he_initializer', 'lecun_initializer'):
      out.append(plain('shape and ranks of %s, %s' % (f, n), lambda a, g, f=f: getattr(t3f, f)(g[0], g[1]),
                       lambda a, k=mk: [[k([2, 3]), k([3, 2])], k([1, 2, 1])]))
      out.append(plain('a missing side of %s, %s' % (f, n), lambda a, g, f=f: getattr(t3f, f)(g, 2),
                       lambda a, k=mk: [k([2, 3]), None]))
    for f in ('tensor_ones', 'tensor_zeros', 'eye'):
      out.append(plain('shape of %s, %s' % (f, n), lambda a, g, f=f: getattr(t3f, f)(g), lambda a, k=mk: k([2, 3])))
    for f in ('matrix_ones', 'matrix_zeros'):
      out.append(plain('shape of %s, %s' % (f, n), lambda a, g, f=f: getattr(t3f, f)(g),
                       lambda a, k=mk: [k([2, 3]), k([3, 2])]))
      out.append(plain('a missing side of %s, %s' % (f, n), lambda a, g, f=f: getattr(t3f, f)(g),
                       lambda a, k=mk: [None, k([3, 2])]))
    out.append(plain('shape of to_tt_matrix, ' + n, lambda a, g: t3f.to_tt_matrix(t3f.full(a), g[0], g[1]),
                     lambda a, k=mk: [[k([2, 2]), k([3, 2])], k([1, 2, 1])], m))
    out.append(plain('sizes of the constructor, ' + n,
                     lambda a, g: t3f.TensorTrain(g[0], g[1], g[2]),
                     lambda a, k=mk: [list(a.tt_cores), k([2, 3, 2]), k([1, 2, 2, 1])]))
    out.append(plain('indices of gather_nd, ' + n, lambda a, g: t3f.gather_nd(a, g),
                     lambda a, k=mk: k([[0, 1, 1], [1, 2, 0]])))
    out.append(plain('weights of multiply_along_batch_dim, ' + n,
                     lambda a, g: t3f.multiply_along_batch_dim(a, g), lambda a, k=mk: k([1.0, 2.0, 3.0]), b))
  out += [
      plain('a list of cores', lambda a, g: t3f.TensorTrain(g), lambda a: list(a.tt_cores)),
      plain('a list of objects, concat', lambda a, g: t3f.concat_along_batch_dim(g), lambda a: [a, a, a], b),
      plain('a list of objects, add_n', lambda a, g: t3f.approximate.add_n(g, 3), lambda a: [a, a, a, a, a]),
      plain('a list of objects and caps, add_n', lambda a, g: t3f.approximate.add_n(g[0], g[1]),
            lambda a: [[a, a, a], [1, 2, 2, 1]]),
      plain('rank caps and weights of reduce_sum_batch', lambda a, g: t3f.approximate.reduce_sum_batch(a, g[0], g[1]),
            lambda a: [[1, 3, 1], np.array([1.0, 2.0, 3.0])], b),
      plain('weights of project_sum', lambda a, g: t3f.project_sum(a, t3f.ones_like(a[0]), g),
            lambda a: np.array([1.0, 2.0, 3.0]), b),
      plain('an index', lambda a, g: a[g[0], g[1], g[2]], lambda a: [slice(0, 1), 1, slice(None)]),
      plain('an index as one list', lambda a, g: a.__getitem__(g), lambda a: [slice(0, 1), 1, slice(None)]),
      plain('weights of add_n_projected', lambda a, g: t3f.add_n_projected(g[0], g[1]),
            lambda a: (lambda z: [[z, z], [2.0, 3.0]])(t3f.project(a, a))),
  ]
  return out


def cases(tier):
  out = given_cases()
  names = set()
  for src, words, few, many in SOURCES:
    for k, c in enumerate(pick(src, words, few if tier == 'quick' else many, usable)):
      d = untouched(src, c)
      if d.name in names:
        continue
      names.add(d.name)
      out.append(d)
      tts = [a for a in c.args if isinstance(a, TT)]
      if tts and not any(a.value is not None or a.unknown for a in tts) and (k % 3 == 0 or tier == 'thorough') and \
          src not in ('c18',):
        out.append(variables(src, c))
      if src in PLAIN and c.spec and not c.check and not c.extra and not c.assume and not c.points and not c.sample and \
          not c.numeric and not any(a.value is not None for a in tts):
        out.append(between(src, c))
  return out
