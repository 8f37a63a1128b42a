"""Symbolic sizes: what shapes a graph computes, for all sizes of its inputs.

The real code is traced with unknown sizes. Every tensor of the graph is
represented by the list of its sizes, which are integer expressions over the
sizes of the inputs; integer tensors that hold sizes also carry their entries.
Whatever an operation requires of its operands (equal inner sizes, as many
elements after a reshape as before, ...) becomes an obligation, so a discharged
case also says that the graph does not fail for any sizes.
"""
import itertools
import math
import random
import time
import numpy as np
import tensorflow as tf
import t3f
from engine import decide
from engine import harness
from engine.terms import Unsupported
from engine.z3conv import z3


def is_num(x):
  return isinstance(x, (int, np.integer)) and not isinstance(x, bool)


def Z(x):
  return z3.IntVal(int(x)) if is_num(x) else x


def norm(x):
  """Canonical expression, a plain int if constant."""
  if is_num(x):
    return int(x)
  x = z3.simplify(x, som=True)
  return x.as_long() if z3.is_int_value(x) else x


def mul(a, b):
  if is_num(a) and is_num(b):
    return int(a) * int(b)
  if is_num(a) and a == 1:
    return b
  if is_num(b) and b == 1:
    return a
  return norm(Z(a) * Z(b))


def add(a, b):
  return int(a) + int(b) if is_num(a) and is_num(b) else norm(Z(a) + Z(b))


def sub(a, b):
  return int(a) - int(b) if is_num(a) and is_num(b) else norm(Z(a) - Z(b))


def minimum(a, b):
  if is_num(a) and is_num(b):
    return min(int(a), int(b))
  if same(a, b):
    return a
  if is_num(a) and a == 1 or is_num(b) and b == 1:
    return 1
  parts = {}
  for x in (a, b):
    for y in _parts.get(x.sexpr() if not is_num(x) else '', [norm(x)]):
      parts[y if is_num(y) else y.sexpr()] = y
  nums = [y for y in parts.values() if is_num(y)]
  parts = ([min(nums)] if nums else []) + [y for k, y in sorted(parts.items(), key=str) if not is_num(y)]
  if len(parts) == 1:
    return parts[0]
  e = Z(parts[0])
  for y in parts[1:]:
    e = z3.If(e <= Z(y), e, Z(y))
  r = named('min', e, parts)
  _parts[r.sexpr()] = parts
  return r


_parts = {}   # what a minimum is taken of


_defs = {}    # definitions of minima and maxima, reset for every case


def named(kind, e, args):
  """Symbol that stands for e, so that products with it can be cancelled."""
  key = (kind,) + tuple(x if is_num(x) else x.sexpr() for x in args)
  if key not in _defs:
    _defs[key] = (z3.Int('%s!%d' % (kind, len(_defs))), e)
  return _defs[key][0]


def definitions():
  return [x == e for x, e in _defs.values()]


def maximum(a, b):
  if is_num(a) and is_num(b):
    return max(int(a), int(b))
  return a if same(a, b) else named('max', z3.If(Z(a) >= Z(b), Z(a), Z(b)), sorted([norm(a), norm(b)], key=str))


def product(xs):
  r = 1
  for x in xs:
    r = mul(r, x)
  return r


def same(a, b):
  if is_num(a) or is_num(b):
    return is_num(a) and is_num(b) and int(a) == int(b)
  return norm(a).eq(norm(b)) if not is_num(norm(a)) and not is_num(norm(b)) else same(norm(a), norm(b))


def factors(x):
  """-> (coefficient, list of other factors)."""
  if is_num(x):
    return int(x), []
  if z3.is_mul(x):
    c, out = 1, []
    for y in x.children():
      k, f = factors(y.as_long() if z3.is_int_value(y) else y)
      c *= k
      out += f
    return c, out
  if z3.is_app_of(x, z3.Z3_OP_POWER):
    b, e = x.children()
    if z3.is_int_value(e):
      return 1, [b] * e.as_long()
  return 1, [x]


class V(object):
  """Sizes of a tensor and, for integers, its entries."""

  def __init__(self, dims, val=None):
    self.dims = list(dims)
    self.val = val       # object array of ints, z3 integers or booleans


def entries(x):
  if x.val is None:
    raise Unsupported('entries of a tensor are needed')
  return x.val


def obj(xs, shape=None):
  xs = list(xs)
  a = np.empty(len(xs), dtype=object)
  for i, x in enumerate(xs):
    a[i] = x
  return a if shape is None else a.reshape(shape)


class Run(object):

  def __init__(self):
    self.need = []          # (what, condition) obligations
    self.unique = {}

  def require(self, what, cond):
    if cond is True or z3.is_true(cond):
      return
    self.need.append((what, cond))

  def equal(self, what, a, b):
    if not same(a, b):
      self.require('%s: %s = %s' % (what, a, b), z3.BoolVal(False) if is_num(a) and is_num(b) else Z(a) == Z(b))

  def broadcast(self, what, *shapes):
    out = []
    n = max(len(s) for s in shapes)
    for k in range(1, n + 1):
      ds = [s[-k] for s in shapes if len(s) >= k]
      r = 1
      for d in ds:
        if is_num(r) and r == 1:
          r = d
        elif (is_num(d) and d == 1) or same(r, d):
          pass
        else:
          self.require('%s: %s fits %s' % (what, r, d), z3.Or(Z(r) == Z(d), Z(r) == 1, Z(d) == 1))
          r = norm(z3.If(Z(r) == 1, Z(d), Z(r)))
      out.append(r)
    return out[::-1]


OPS = {}


def op(*names):
  def deco(f):
    for n in names:
      OPS[n] = f
    return f
  return deco


def attr(o, k):
  return o.get_attr(k)


@op('Const')
def _const(r, o, xs):
  a = tf.make_ndarray(o.get_attr('value'))
  val = None
  if a.dtype.kind in 'iub' and a.size <= 4096:
    val = obj([bool(x) if a.dtype.kind == 'b' else int(x) for x in a.reshape(-1)], a.shape)
  return [V([int(s) for s in a.shape], val)]


@op('Identity', 'StopGradient', 'PreventGradient', 'Snapshot', 'CheckNumerics', 'EnsureShape')
def _identity(r, o, xs):
  return [xs[0]]


@op('Abs', 'Sign', 'Sqrt', 'Rsqrt', 'Exp', 'Log', 'Square', 'Neg', 'Reciprocal', 'Relu', 'Tanh', 'Sigmoid', 'Conj',
    'ZerosLike', 'OnesLike', 'Cholesky', 'MatrixInverse', 'IsFinite', 'LogicalNot', 'Softmax', 'Inv', 'MatrixBandPart',
    'Log1p', 'Floor', 'Round')
def _unary(r, o, xs):
  if o.type in ('Cholesky', 'MatrixInverse'):
    r.equal('square matrix in ' + o.type, xs[0].dims[-1], xs[0].dims[-2])
  if o.type == 'Neg' and xs[0].val is not None:
    return [V(xs[0].dims, obj([sub(0, x) for x in xs[0].val.reshape(-1)], xs[0].val.shape))]
  return [V(xs[0].dims)]


@op('Cast')
def _cast(r, o, xs):
  to = tf.as_dtype(attr(o, 'DstT'))
  return [V(xs[0].dims, xs[0].val if to.is_integer else None)]


def _floordiv(a, b):
  if is_num(a) and is_num(b):
    return int(a) // int(b)
  if is_num(b) and int(b) > 0:
    return norm(Z(a) / Z(b))
  ca, fa = factors(a)
  cb, fb = factors(b)
  return _divide(ca, fa, cb, fb)


def _divide(ca, fa, cb, fb):
  fa = list(fa)
  for f in fb:
    for i, g in enumerate(fa):
      if same(f, g):
        del fa[i]
        break
    else:
      raise Unsupported('division of sizes %s by %s' % (fa, fb))
  if ca % cb:
    raise Unsupported('division of sizes')
  return product([ca // cb] + fa)


def _mod(a, b):
  if is_num(a) and is_num(b):
    return int(a) % int(b)
  return None


INT = {'Mul': mul, 'FloorMod': _mod, 'AddV2': add, 'Add': add, 'Sub': sub, 'Minimum': minimum, 'Maximum': maximum, 'FloorDiv': _floordiv,
       'Equal': lambda a, b: True if same(a, b) else (False if is_num(a) and is_num(b) else Z(a) == Z(b)),
       'NotEqual': lambda a, b: False if same(a, b) else (True if is_num(a) and is_num(b) else Z(a) != Z(b)),
       'Less': lambda a, b: int(a) < int(b) if is_num(a) and is_num(b) else Z(a) < Z(b),
       'LessEqual': lambda a, b: int(a) <= int(b) if is_num(a) and is_num(b) else Z(a) <= Z(b),
       'Greater': lambda a, b: int(a) > int(b) if is_num(a) and is_num(b) else Z(a) > Z(b),
       'GreaterEqual': lambda a, b: int(a) >= int(b) if is_num(a) and is_num(b) else Z(a) >= Z(b)}


@op('Mul', 'AddV2', 'Add', 'Sub', 'RealDiv', 'Div', 'DivNoNan', 'Pow', 'Maximum', 'Minimum', 'FloorDiv', 'Equal', 'NotEqual',
    'Less', 'LessEqual', 'Greater', 'GreaterEqual', 'SquaredDifference', 'LogicalAnd', 'LogicalOr', 'FloorMod',
    'TruncateDiv')
def _binary(r, o, xs):
  a, b = xs
  val = None
  if a.val is not None and b.val is not None and o.type in INT:
    f = INT[o.type]
    x, y = np.broadcast_arrays(a.val, b.val)
    val = [f(p, q) for p, q in zip(x.reshape(-1), y.reshape(-1))]
    val = None if any(v is None for v in val) else obj(val, x.shape)
  return [V(r.broadcast(o.type, a.dims, b.dims), val)]


@op('AddN')
def _addn(r, o, xs):
  for x in xs[1:]:
    if len(x.dims) != len(xs[0].dims):
      r.require('AddN of different numbers of axes', z3.BoolVal(False))
    for p, q in zip(xs[0].dims, x.dims):
      r.equal('AddN', p, q)
  return [V(xs[0].dims)]


@op('Select', 'SelectV2')
def _select(r, o, xs):
  return [V(r.broadcast(o.type, *[x.dims for x in xs]))]


@op('Shape')
def _shape(r, o, xs):
  return [V([len(xs[0].dims)], obj(xs[0].dims))]


@op('Rank')
def _rank(r, o, xs):
  return [V([], obj([len(xs[0].dims)], ()))]


@op('Size')
def _size(r, o, xs):
  return [V([], obj([product(xs[0].dims)], ()))]


@op('Pack')
def _pack(r, o, xs):
  ax = attr(o, 'axis')
  d = xs[0].dims
  for x in xs[1:]:
    for p, q in zip(d, x.dims):
      r.equal('Pack', p, q)
  ax = ax + len(d) + 1 if ax < 0 else ax
  val = None
  if all(x.val is not None for x in xs):
    val = np.stack([x.val for x in xs], axis=ax)
  return [V(d[:ax] + [len(xs)] + d[ax:], val)]


@op('Unpack')
def _unpack(r, o, xs):
  ax, n = attr(o, 'axis'), attr(o, 'num')
  d = xs[0].dims
  ax = ax % len(d)
  r.equal('Unpack', d[ax], n)
  out = []
  for k in range(n):
    val = None if xs[0].val is None else np.asarray(np.take(xs[0].val, k, axis=ax), dtype=object)
    out.append(V(d[:ax] + d[ax + 1:], val))
  return out


@op('ConcatV2')
def _concat(r, o, xs):
  ax = int(entries(xs[-1]).reshape(-1)[0])
  xs = xs[:-1]
  n = len(xs[0].dims)
  ax %= n
  out = list(xs[0].dims)
  for x in xs[1:]:
    if len(x.dims) != n:
      r.require('concatenation of different numbers of axes', z3.BoolVal(False))
      return [V(out)]
    for k in range(n):
      if k != ax:
        r.equal('concatenation', xs[0].dims[k], x.dims[k])
    out[ax] = add(out[ax], x.dims[ax])
  val = None
  if all(x.val is not None for x in xs):
    val = np.concatenate([x.val for x in xs], axis=ax)
  return [V(out, val)]


@op('ExpandDims')
def _expand(r, o, xs):
  ax = int(entries(xs[1]).reshape(-1)[0])
  d = xs[0].dims
  ax = ax + len(d) + 1 if ax < 0 else ax
  val = None if xs[0].val is None else np.expand_dims(xs[0].val, ax)
  return [V(d[:ax] + [1] + d[ax:], val)]


@op('Squeeze')
def _squeeze(r, o, xs):
  dims = list(attr(o, 'squeeze_dims'))
  d = xs[0].dims
  if not dims:
    if any(not is_num(x) for x in d):
      raise Unsupported('squeeze of axes of unknown size')
    dims = [k for k, x in enumerate(d) if x == 1]
  dims = [k % len(d) for k in dims]
  for k in dims:
    r.equal('Squeeze', d[k], 1)
  val = None if xs[0].val is None else xs[0].val.reshape([s for k, s in enumerate(xs[0].val.shape) if k not in dims])
  return [V([x for k, x in enumerate(d) if k not in dims], val)]


@op('Reshape')
def _reshape(r, o, xs):
  want = [x if not is_num(x) else int(x) for x in entries(xs[1]).reshape(-1)]
  d = xs[0].dims
  free = [k for k, x in enumerate(want) if is_num(x) and x == -1]
  if free:
    c1, f1, c2, f2 = 1, [], 1, []
    for x in d:
      c, f = factors(x)
      c1, f1 = c1 * c, f1 + f
    for k, x in enumerate(want):
      if k != free[0]:
        c, f = factors(x)
        c2, f2 = c2 * c, f2 + f
    try:
      want[free[0]] = _divide(c1, f1, c2, f2)
    except Unsupported:
      n, m = product(d), product([x for k, x in enumerate(want) if k != free[0]])
      q = z3.simplify(Z(n) / Z(m))
      r.require('reshape divides %s by %s' % (n, m), q * Z(m) == Z(n))
      want[free[0]] = q
  else:
    r.equal('number of elements in a reshape', product(d), product(want))
  val = None
  if xs[0].val is not None and all(is_num(x) for x in want):
    val = xs[0].val.reshape(want)
  return [V(want, val)]


@op('Transpose')
def _transpose(r, o, xs):
  p = [int(x) for x in entries(xs[1]).reshape(-1)]
  if sorted(p) != list(range(len(xs[0].dims))):
    r.require('permutation of the axes', z3.BoolVal(False))
    raise Unsupported('permutation')
  return [V([xs[0].dims[k] for k in p], None if xs[0].val is None else np.transpose(xs[0].val, p))]


@op('MatMul', 'BatchMatMul', 'BatchMatMulV2', 'BatchMatMulV3')
def _matmul(r, o, xs):
  ta, tb = ('transpose_a', 'transpose_b') if o.type == 'MatMul' else ('adj_x', 'adj_y')
  a, b = list(xs[0].dims), list(xs[1].dims)
  if attr(o, ta):
    a[-1], a[-2] = a[-2], a[-1]
  if attr(o, tb):
    b[-1], b[-2] = b[-2], b[-1]
  r.equal('inner sizes of a matrix product', a[-1], b[-2])
  return [V(r.broadcast(o.type, a[:-2], b[:-2]) + [a[-2], b[-1]])]


@op('Einsum')
def _einsum(r, o, xs):
  eq = attr(o, 'equation')
  eq = eq.decode() if isinstance(eq, bytes) else eq
  ins, out = eq.split('->')
  ins = ins.split(',')
  size, dots = {}, []
  for s, x in zip(ins, xs):
    d = list(x.dims)
    if '...' in s:
      head, tail = s.split('...')
      n = len(d) - len(head) - len(tail)
      dots.append(d[len(head):len(head) + n])
      pairs = list(zip(head, d[:len(head)])) + list(zip(tail, d[len(d) - len(tail):]))
    else:
      if len(s) != len(d):
        r.require('number of axes in einsum %s' % eq, z3.BoolVal(False))
        raise Unsupported('einsum axes')
      pairs = list(zip(s, d))
    for l, n in pairs:
      if l in size:
        r.equal('einsum %s axis %s' % (eq, l), size[l], n)
      else:
        size[l] = n
  res = []
  if '...' in out:
    head, tail = out.split('...')
    res = [size[l] for l in head] + r.broadcast('einsum', *dots) + [size[l] for l in tail]
  else:
    res = [size[l] for l in out]
  return [V(res)]


@op('Fill')
def _fill(r, o, xs):
  d = [x for x in entries(xs[0]).reshape(-1)]
  val = None
  if xs[1].val is not None and all(is_num(x) for x in d):
    val = np.full([int(x) for x in d], xs[1].val.reshape(-1)[0], dtype=object)
  return [V(d, val)]


@op('Tile')
def _tile(r, o, xs):
  m = entries(xs[1]).reshape(-1)
  if len(m) != len(xs[0].dims):
    r.require('number of axes in tile', z3.BoolVal(False))
  return [V([mul(a, b) for a, b in zip(xs[0].dims, m)])]


@op('BroadcastTo')
def _broadcast_to(r, o, xs):
  want = list(entries(xs[1]).reshape(-1))
  for a, b in zip(xs[0].dims[::-1], want[::-1]):
    if not (is_num(a) and a == 1):
      r.equal('broadcast', a, b)
  return [V(want)]


@op('Range')
def _range(r, o, xs):
  v = [entries(x).reshape(-1)[0] for x in xs]
  if not all(is_num(x) for x in v):
    raise Unsupported('range of unknown length')
  a = list(range(*[int(x) for x in v]))
  return [V([len(a)], obj(a))]


@op('Sum', 'Prod', 'Mean', 'Max', 'Min', 'All', 'Any')
def _reduce(r, o, xs):
  d = xs[0].dims
  ax = [int(x) % max(len(d), 1) for x in entries(xs[1]).reshape(-1)]
  keep = attr(o, 'keep_dims')
  out = [1 if k in ax else x for k, x in enumerate(d) if keep or k not in ax]
  val = None
  if xs[0].val is not None and not keep:
    a = xs[0].val
    rest = [k for k in range(a.ndim) if k not in ax]
    b = np.transpose(a, rest + ax).reshape([a.shape[k] for k in rest] + [-1])
    flat = b.reshape(-1, b.shape[-1])
    f = {'Prod': product, 'Sum': lambda v: _fold(add, v), 'Max': lambda v: _fold(maximum, v),
         'Min': lambda v: _fold(minimum, v), 'All': _all}.get(o.type)
    if f is not None:
      val = obj([f(list(v)) for v in flat], [a.shape[k] for k in rest])
  return [V(out, val)]


def _fold(f, v):
  x = v[0]
  for y in v[1:]:
    x = f(x, y)
  return x


def _all(v):
  v = [x for x in v if x is not True]
  if any(x is False for x in v):
    return False
  return z3.And(v) if v else True


@op('Assert')
def _assert(r, o, xs):
  c = entries(xs[0]).reshape(-1)[0]
  r.require('assertion in the graph', z3.BoolVal(c) if isinstance(c, bool) else c)
  return []


@op('NoOp')
def _noop(r, o, xs):
  return []


@op('StridedSlice')
def _strided(r, o, xs):
  d = xs[0].dims
  b, e, s = [list(entries(x).reshape(-1)) for x in xs[1:4]]
  bm, em, el, nw, sh = [attr(o, k) for k in ('begin_mask', 'end_mask', 'ellipsis_mask', 'new_axis_mask',
                                            'shrink_axis_mask')]
  dense, k, n = [], 0, len(b)
  used = sum(1 for i in range(n) if not (nw >> i) & 1 and not (el >> i) & 1)
  for i in range(n):
    if (el >> i) & 1:
      for _ in range(len(d) - used):
        dense.append(('all', k))
        k += 1
    elif (nw >> i) & 1:
      dense.append(('new', None))
    else:
      dense.append(('s', k, i))
      k += 1
  while k < len(d):
    dense.append(('all', k))
    k += 1
  out, index = [], []
  for x in dense:
    if x[0] == 'all':
      out.append(d[x[1]])
      index.append(slice(None))
    elif x[0] == 'new':
      out.append(1)
      index.append(None)
    else:
      k, i = x[1:]
      if k >= len(d):
        r.require('number of indices', z3.BoolVal(False))
        raise Unsupported('index count')
      n = d[k]
      if (sh >> i) & 1:
        r.require('index %s is below %s' % (b[i], n), True if is_num(b[i]) and is_num(n) and -n <= b[i] < n else
                  z3.And(Z(b[i]) < Z(n), Z(b[i]) >= -Z(n)))
        index.append(int(b[i]) if is_num(b[i]) else None)
        continue
      if not is_num(s[i]):
        raise Unsupported('stride')
      st = int(s[i])
      if is_num(n) and all(is_num(v) for v in (b[i], e[i])):
        sl = slice(None if (bm >> i) & 1 else int(b[i]), None if (em >> i) & 1 else int(e[i]), st)
        out.append(len(range(*sl.indices(int(n)))))
        index.append(sl)
        continue
      index.append('symbolic')
      if st != 1:
        if st == -1 and (bm >> i) & 1 and (em >> i) & 1:
          out.append(n)
          continue
        raise Unsupported('stride')
      lo = 0 if (bm >> i) & 1 else _clip(b[i], n)
      hi = n if (em >> i) & 1 else _clip(e[i], n)
      if is_num(lo) and lo == 0:
        out.append(hi)
      else:
        out.append(maximum(0, sub(hi, lo)))
  val = None
  if xs[0].val is not None and not any(isinstance(i, str) for i in index):
    val = np.asarray(xs[0].val[tuple(index)], dtype=object)
  return [V(out, val)]


def _clip(x, n):
  """Position x of a slice in an axis of size n."""
  if is_num(x) and x >= 0:
    return 0 if x == 0 else minimum(x, n)
  if is_num(x):
    return maximum(0, add(n, x))
  return minimum(x, n)


@op('Slice')
def _slice(r, o, xs):
  b, s = [list(entries(x).reshape(-1)) for x in xs[1:3]]
  out = []
  for n, p, k in zip(xs[0].dims, b, s):
    if is_num(k) and k == -1:
      out.append(sub(n, p))
    else:
      r.require('slice inside the axis', Z(p) + Z(k) <= Z(n))
      out.append(k)
  return [V(out)]


@op('RandomStandardNormal', 'RandomUniform', 'TruncatedNormal')
def _random(r, o, xs):
  return [V(list(entries(xs[0]).reshape(-1)))]


@op('Pad', 'PadV2')
def _pad(r, o, xs):
  p = entries(xs[1])
  return [V([add(n, add(a, b)) for n, (a, b) in zip(xs[0].dims, p)])]


@op('BroadcastGradientArgs')
def _gradient_axes(r, o, xs):
  a, b = [list(entries(x).reshape(-1)) for x in xs]
  n = max(len(a), len(b))
  out = [[], []]
  for k in range(n):
    p, q = [s[k - n + len(s)] if k - n + len(s) >= 0 else None for s in (a, b)]
    if p is not None and q is not None and same(p, q):
      if is_num(p) and p == 1:
        out[0].append(k)
        out[1].append(k)
      continue
    if not all(x is None or is_num(x) for x in (p, q)):
      raise Unsupported('broadcasting of unknown sizes in a gradient')
    for i, x in enumerate((p, q)):
      if x is None or x == 1:
        out[i].append(k)
  return [V([len(x)], obj(x)) for x in out]


@op('ConcatOffset')
def _concat_offset(r, o, xs):
  ax = int(entries(xs[0]).reshape(-1)[0])
  out, at = [], 0
  for x in xs[1:]:
    v = obj([0] * len(x.val))
    v[ax] = at
    at = add(at, x.val[ax])
    out.append(V(x.dims, v))
  return out


@op('DynamicStitch')
def _stitch(r, o, xs):
  k = len(xs) // 2
  out = {}
  for i, x in zip(xs[:k], xs[k:]):
    for p, q in zip(entries(i).reshape(-1), entries(x).reshape(-1)):
      if not is_num(p):
        raise Unsupported('stitching at unknown places')
      out[int(p)] = q
  if sorted(out) != list(range(len(out))):
    raise Unsupported('stitching with gaps')
  return [V([len(out)], obj([out[p] for p in range(len(out))]))]


@op('GatherV2')
def _gather(r, o, xs):
  ax = int(entries(xs[2]).reshape(-1)[0])
  bd = attr(o, 'batch_dims')
  if bd:
    raise Unsupported('batch_dims')
  d = xs[0].dims
  ax %= len(d)
  val = None
  if xs[0].val is not None and xs[1].val is not None and all(is_num(x) for x in xs[1].val.reshape(-1)):
    val = np.asarray(np.take(xs[0].val, xs[1].val.astype(int), axis=ax), dtype=object)
  return [V(d[:ax] + xs[1].dims + d[ax + 1:], val)]


@op('OneHot')
def _one_hot(r, o, xs):
  d = list(xs[0].dims)
  ax = attr(o, 'axis')
  d.insert(len(d) if ax == -1 else ax, entries(xs[1]).reshape(-1)[0])
  return [V(d)]


@op('GatherNd')
def _gathernd(r, o, xs):
  k = xs[1].dims[-1]
  if not is_num(k):
    raise Unsupported('index depth')
  return [V(xs[1].dims[:-1] + xs[0].dims[int(k):])]


@op('Qr')
def _qr(r, o, xs):
  d = xs[0].dims
  m, n = d[-2:]
  k = minimum(m, n)
  if attr(o, 'full_matrices'):
    return [V(d[:-2] + [m, m]), V(d[:-2] + [m, n])]
  return [V(d[:-2] + [m, k]), V(d[:-2] + [k, n])]


@op('Svd')
def _svd(r, o, xs):
  d = xs[0].dims
  m, n = d[-2:]
  k = minimum(m, n)
  if attr(o, 'full_matrices'):
    return [V(d[:-2] + [k]), V(d[:-2] + [m, m]), V(d[:-2] + [n, n])]
  return [V(d[:-2] + [k]), V(d[:-2] + [m, k]), V(d[:-2] + [n, k])]


@op('MatrixDiagV3', 'MatrixDiag')
def _diag(r, o, xs):
  for x in xs[1:2]:
    if entries(x).reshape(-1).tolist() != [0]:
      raise Unsupported('diagonal')
  d = xs[0].dims
  return [V(d[:-1] + [d[-1], d[-1]])]


@op('MatrixDiagPartV3')
def _diagpart(r, o, xs):
  d = xs[0].dims
  return [V(d[:-2] + [minimum(d[-2], d[-1])])]


@op('MatrixDeterminant', 'LogMatrixDeterminant')
def _det(r, o, xs):
  d = xs[0].dims
  r.equal('square matrix', d[-1], d[-2])
  return [V(d[:-2])] * len(o.outputs)


def run_graph(graph, args, all_values=None):
  """all_values: dict that receives the sizes of every tensor."""
  r = Run()
  by = {t.name: v for t, v in zip(graph.inputs, args)}
  for o in graph.get_operations():
    if o.outputs and o.outputs[0].name in by:
      continue
    f = OPS.get(o.type)
    if f is None:
      raise Unsupported('op %s' % o.type)
    res = f(r, o, [by[t.name] for t in o.inputs])
    for t, v in zip(o.outputs, res):
      by[t.name] = v
  if all_values is not None:
    all_values.update(by)
  return r, [by[t.name] for t in graph.outputs]


# ------------------------------------------------------------------ cases

class TT(object):
  """TT argument; sizes are ints or names of symbols."""

  def __init__(self, modes, ranks, cols=None, batch=None, dtype='float64'):
    self.modes, self.ranks, self.cols, self.batch, self.dtype = list(modes), list(ranks), cols, batch, dtype

  def shapes(self):
    out = []
    for k, n in enumerate(self.modes):
      s = [self.ranks[k], n] + ([self.cols[k]] if self.cols is not None else []) + [self.ranks[k + 1]]
      out.append(([] if self.batch is None else [self.batch]) + s)
    return out

  def build(self, ts):
    return (t3f.TensorTrain if self.batch is None else t3f.TensorTrainBatch)(list(ts))


class Dense(object):

  def __init__(self, dims, dtype='float64', value=None):
    self.dims, self.dtype, self.value = list(dims), dtype, value

  def shapes(self):
    return [self.dims]

  def build(self, ts):
    return ts[0]


class Expect(object):
  """Sizes of a TT result; None: not claimed."""

  def __init__(self, modes, cols=None, ranks=None, batch=None, dtype=None):
    self.modes, self.cols, self.ranks, self.batch, self.dtype = modes, cols, ranks, batch, dtype


class SizeCase(object):
  """prog on arguments of symbolic sizes; spec(sizes) -> expected results.

  spec gets a function from size names (or ints) to expressions, and returns a
  list of Expect (TT results) and lists of sizes (dense results).
  """

  def __init__(self, name, args, prog, spec=None, lo=1, fits=None):
    self.name, self.args, self.prog, self.spec, self.lo = name, args, prog, spec, lo
    self.fits = fits      # sizes -> condition; outside of it the code has to fail
    self.names = sorted({x for a in args for s in a.shapes() for x in s if isinstance(x, str)})

  def least(self, n):
    return self.lo.get(n, 1) if isinstance(self.lo, dict) else self.lo

  def specs(self):
    return [tf.TensorSpec([None if isinstance(x, str) else x for x in s], a.dtype)
            for a in self.args for s in a.shapes()]

  def trace(self):
    state = {}

    def body(*ts):
      objs, i = [], 0
      for a in self.args:
        n = len(a.shapes())
        objs.append(a.build(ts[i:i + n]))
        i += n
      outs = harness.as_list(self.prog(*objs))
      state['layout'], flat = harness.flatten(outs, True)
      return flat
    import sys
    import os
    funcs = set()

    def prof(frame, event, arg):
      if event == 'call':
        c = frame.f_code
        if c.co_filename.startswith(harness.REPO + '/t3f/'):
          funcs.add('%s:%s' % (os.path.basename(c.co_filename)[:-3], c.co_name))
    sys.setprofile(prof)
    try:
      cf = tf.function(body, autograph=False).get_concrete_function(*self.specs())
    finally:
      sys.setprofile(None)
    return cf, state['layout'], sorted(f for f in funcs if '<' not in f)

  def facts(self, layout, flat, size):
    """(what, a, b): sizes that have to agree. flat: V of every output."""
    if self.spec is None:
      return []
    expected = self.spec(size)
    out = []
    i = 0
    if len(expected) != len(layout):
      return [('number of results', len(layout), len(expected))]
    for k, ((kind, m, n, extra), e) in enumerate(zip(layout, expected)):
      what = 'result %d ' % k

      def eq(text, xs, ys):
        xs, ys = list(xs), list(ys)
        if len(xs) != len(ys):
          out.append((what + 'number of ' + text, len(xs), len(ys)))
          return
        for j, (a, b) in enumerate(zip(xs, ys)):
          if a is not None and b is not None:
            out.append(('%s%s %d' % (what, text, j), a, b))
      if kind == 't':
        if not isinstance(e, (list, tuple)):
          out.append((what + 'is an array', 1, 0))
        else:
          eq('size', flat[i].dims, e)
        i += 1
        continue
      cores, run = flat[i:i + n], flat[i + n:i + n + extra]
      i += n + extra
      if not isinstance(e, Expect):
        out.append((what + 'is a TT object', 1, 0))
        continue
      off = 1 if m['batchobj'] else 0
      out.append((what + 'matrix', int(m['matrix']), int(e.cols is not None)))
      out.append((what + 'batch', off, int(e.batch is not None)))
      nd = off + (4 if m['matrix'] else 3)
      if any(len(c.dims) != nd for c in cores):
        out.append((what + 'axes of cores', 1, 0))
        continue
      ranks = [c.dims[off] for c in cores] + [cores[-1].dims[-1]]
      modes = [[c.dims[off + 1] for c in cores]]
      if m['matrix']:
        modes.append([c.dims[off + 2] for c in cores])
      eq('mode', modes[0], e.modes)
      if m['matrix'] and e.cols is not None:
        eq('column mode', modes[1], e.cols)
      if e.ranks is not None:
        eq('rank', ranks, e.ranks)
      eq('chained rank', [c.dims[-1] for c in cores[:-1]], ranks[1:-1])
      eq('boundary rank', [ranks[0], ranks[-1]], [1, 1])
      full = [product(x) for x in modes] if m['matrix'] else modes[0]
      if off:
        b = cores[0].dims[0]
        eq('batch size of cores', [c.dims[0] for c in cores], [b] * n)
        if e.batch is not None:
          eq('batch size', [b], [e.batch])
        eq('reported batch size', [m['batch']], [b])
        full = [b] + full
        eq('run-time batch size', entries(run[3]).reshape(-1), [b])
      eq('reported rank', m['ranks'], ranks)
      for x, y in zip(m['raw'], modes):
        eq('reported mode', x, y)
      eq('rows of reported mode shape', [len(m['raw'])], [len(modes)])
      if m['shape'] is not None:
        eq('reported size', m['shape'], full)
      eq('run-time size', entries(run[0]).reshape(-1), full)
      eq('run-time mode', entries(run[1]).reshape(-1), [x for r in modes for x in r])
      eq('run-time rank', entries(run[2]).reshape(-1), ranks)
      if e.dtype is not None:
        out.append((what + 'dtype', int(m['dtype'] == e.dtype), 1))
    return out

  def run(self, seed):
    res = harness.Result(self.name)
    t0 = time.time()
    try:
      self._run(res, seed)
    except Unsupported as e:
      res.status, res.detail = 'undecided', 'unsupported: %s' % e
    except Exception as e:
      res.status, res.detail = 'undecided', 'engine: %s: %s' % (type(e).__name__, str(e)[:300])
    if res.status == 'undecided':
      rnd = random.Random(seed)
      for _ in range(4):
        v = {n: rnd.randrange(self.least(n), self.least(n) + 4) for n in self.names}
        res.replays += 1
        bad = self.failures(v)
        if bad:
          res.status, res.detail, res.mode = 'violation', bad, 'search'
          res.values = [v[n] for n in self.names]
          break
    res.wall = time.time() - t0
    return res

  def symbols(self):
    return {n: z3.Int(n) for n in self.names}

  def _run(self, res, seed):
    st = res.stats
    _defs.clear()
    _parts.clear()
    z = self.symbols()
    base = [z[n] >= self.least(n) for n in self.names]

    def size(x):
      return z[x] if isinstance(x, str) else x
    try:
      cf, layout, res.functions = self.trace()
    except Exception as e:
      raise Unsupported('tracing: %s: %s' % (type(e).__name__, str(e)[:200]))
    args = [V([size(x) for x in s], None if getattr(a, 'value', None) is None else obj(a.value.reshape(-1), a.value.shape))
            for a in self.args for s in a.shapes()]
    r, flat = run_graph(cf.graph, args)
    res.nops = len(cf.graph.get_operations())
    res.op_types = sorted({o.type for o in cf.graph.get_operations()})
    # the encoding agrees with the real function on a few sizes
    rnd = random.Random(seed)
    for _ in range(2):
      v = {n: rnd.randrange(self.least(n), self.least(n) + 3) for n in self.names}
      sub = [(z[n], z3.IntVal(x)) for n, x in v.items()]
      try:
        real = self.call(cf, v, rnd)
      except tf.errors.InvalidArgumentError:
        # the encoding has to say so too
        if all(truth(c, sub) for _, c in r.need):
          raise Unsupported('the graph fails for %s, the encoding does not' % v)
        continue
      if not all(truth(c, sub) for _, c in r.need):
        raise Unsupported('the graph does not fail for %s, the encoding does' % v)
      for f, t in zip(flat, real):
        dims = [value(x, sub) for x in f.dims]
        if dims != list(t.shape):
          bad = self.failures(v)
          raise Unsupported('encoding disagrees: %s instead of %s %s' % (dims, list(t.shape), bad))
        if f.val is not None and t.dtype.kind == 'i':
          if [value(x, sub) for x in f.val.reshape(-1)] != t.reshape(-1).tolist():
            raise Unsupported('encoding disagrees on entries')
      res.tv_points += 1
    claims = [('graph: ' + w, c) for w, c in r.need]
    for what, a, b in self.facts(layout, flat, size):
      res.claims += 1
      if same(a, b):
        # still decided by the solver, on the unsimplified sides
        claims.append((what, Z(a) == Z(b) if not (is_num(a) and is_num(b)) else z3.BoolVal(True)))
      else:
        claims.append((what, z3.BoolVal(False) if is_num(a) and is_num(b) else Z(a) == Z(b)))
    res.claims += len(r.need)
    if self.fits is not None:
      f = self.fits(size)
      ok = z3.And([c for _, c in r.need] + [z3.BoolVal(True)])
      claims = [(w, z3.Implies(f, c)) for w, c in claims]
      claims.append(('sizes that do not fit are accepted', z3.Implies(ok, f)))
      res.claims += 1
    base += definitions()
    rr, m = decide.solve(st, base, 30)
    if rr != 'sat':
      raise Unsupported('no sizes')
    res.witness = 1
    groups = [claims] if len(claims) else []
    while groups:
      g = groups.pop()
      rr, m = decide.solve(st, base + [z3.Or([z3.Not(c) for _, c in g])], 20)
      if rr == 'unsat':
        continue
      if rr == 'unknown':
        if len(g) == 1:
          raise Unsupported('%s is unknown' % g[0][0])
        groups += [g[:len(g) // 2], g[len(g) // 2:]]
        continue
      small = [z3.And(z[n] <= self.least(n) + 5) for n in self.names]
      r2, m2 = decide.solve(st, base + small + [z3.Or([z3.Not(c) for _, c in g])], 20)
      m = m2 if r2 == 'sat' else m
      v = {n: m.eval(z[n], model_completion=True).as_long() for n in self.names}
      res.sat_claims += 1
      if max(v.values()) > 40:
        raise Unsupported('counterexample with sizes %s is too large to replay' % v)
      res.replays += 1
      bad = self.failures(v)
      if bad:
        res.status, res.mode, res.detail = 'violation', 'direct', bad
        res.values = [v[n] for n in self.names]
        return
      wrong = [w for w, c in g if not z3.is_true(m.eval(c, model_completion=True))]
      res.status, res.detail = 'spurious', 'sizes %s: %s' % (v, wrong[:3])
      return
    res.status = 'proved'

  def call(self, cf, v, rnd):
    rs = np.random.RandomState(rnd.randrange(10 ** 6))
    ts = []
    for a in self.args:
      for s in a.shapes():
        if getattr(a, 'value', None) is not None:
          x = a.value
        else:
          x = rs.normal(size=[v[q] if isinstance(q, str) else q for q in s])
          if tf.as_dtype(a.dtype).is_integer:
            x = np.zeros(x.shape)
        ts.append(tf.constant(x, a.dtype))
    out = cf(*ts)
    return [np.asarray(t.numpy()) for t in (out if isinstance(out, (list, tuple)) else [out])]

  def failures(self, v):
    """Real code on concrete sizes; -> message or ''."""
    where = ', '.join('%s=%s' % (n, v[n]) for n in self.names)
    fits = True if self.fits is None else z3.is_true(z3.simplify(self.fits(
        lambda x: z3.IntVal(v[x] if isinstance(x, str) else x))))
    try:
      cf, layout, _ = self.trace()
      flat = self.call(cf, v, random.Random(1))
    except Exception as e:
      return 'raises %s: %s for %s' % (type(e).__name__, str(e)[:200], where) if fits else ''
    if not fits:
      return 'accepts %s' % where
    vs = [V([int(q) for q in t.shape], obj([int(q) for q in t.reshape(-1)], t.shape) if t.dtype.kind == 'i' else None)
          for t in flat]
    for what, a, b in self.facts(layout, vs, lambda x: v[x] if isinstance(x, str) else x):
      a, b = (value(x, []) for x in (a, b))
      if a != b:
        return '%s is %s instead of %s for %s' % (what, a, b, where)
    return ''

  def replay(self, d):
    return self.failures({n: int(v) for n, v in zip(self.names, d['values'])})


def truth(x, sub):
  for d, e in reversed(list(_defs.values())):
    x = z3.substitute(x, (d, e))
  return z3.is_true(z3.simplify(z3.substitute(x, *sub)))


def value(x, sub):
  if is_num(x):
    return int(x)
  # definitions only use earlier ones
  for d, e in reversed(list(_defs.values())):
    x = z3.substitute(x, (d, e))
  x = z3.simplify(z3.substitute(x, *sub)) if sub else z3.simplify(x)
  return x.as_long() if z3.is_int_value(x) else None


class GrowthCase(SizeCase):
  """No tensor of the graph is larger than a polynomial, for all sizes.

  make(d) gives the arguments for d cores, whose sizes are uniform symbols.
  degrees: size name -> largest degree. The number of steps may not grow faster
  than linearly in d.
  """

  def __init__(self, name, make, prog, degrees, d=12, steps=(4, 8, 16), factor=64):
    SizeCase.__init__(self, name, make(d), prog)
    self.make, self.degrees, self.d, self.steps, self.factor = make, degrees, d, steps, factor

  def degree(self, n):
    return self.degrees.get(n, self.degrees.get(n[0]))

  def bound(self, v):
    out = self.factor
    for n in self.names:
      out *= v[n] ** self.degree(n)
    return out

  def count(self, d):
    c = SizeCase(self.name, self.make(d), self.prog)
    cf, _, _ = c.trace()
    return len(cf.graph.get_operations())

  def _run(self, res, seed):
    st = res.stats
    _defs.clear()
    _parts.clear()
    z = self.symbols()
    base = [z[n] >= 1 for n in self.names]
    try:
      cf, layout, res.functions = self.trace()
    except Exception as e:
      raise Unsupported('tracing: %s: %s' % (type(e).__name__, str(e)[:200]))
    args = [V([z[x] if isinstance(x, str) else x for x in s]) for a in self.args for s in a.shapes()]
    by = {}
    run_graph(cf.graph, args, by)
    res.nops = len(cf.graph.get_operations())
    res.op_types = sorted({o.type for o in cf.graph.get_operations()})
    seen = {}
    for t, v in by.items():
      seen.setdefault(str(norm(product(v.dims))), (t, norm(product(v.dims))))
    rr, _ = decide.solve(st, base, 30)
    res.witness = int(rr == 'sat')
    self.validate(cf, by, res, seed)
    logs = {n: self.degree(n) for n in self.names}
    todo = list(seen.values())
    res.claims += len(todo)
    # one query for all, then one for each
    facts, claims = [], []
    for t, p in todo:
      f, c = log_claims(p, self.factor, logs)
      facts += f
      claims.append(z3.And(c))
    failing = []
    rr, _ = decide.solve(st, facts + [z3.Not(z3.And(claims + [z3.BoolVal(True)]))], 60)
    if rr != 'unsat':
      failing = [tp for tp, c in zip(todo, claims) if decide.solve(st, facts + [z3.Not(c)], 20)[0] != 'unsat']
    if failing:
      res.sat_claims += len(failing)
      for v in self.candidates([p for _, p in failing], [p for _, p in todo]):
        res.replays += 1
        bad = self.failures(v)
        if bad:
          res.status, res.mode, res.detail = 'violation', 'direct', bad
          res.values = [v[n] for n in self.names]
          return
      raise Unsupported('number of elements %s of %s' % (failing[0][1], failing[0][0]))
    a, b, c = (self.count(d) for d in self.steps)
    res.structural += 1
    if c - b > 3 * (b - a):
      res.status, res.mode = 'violation', 'direct'
      res.detail = self.steps_grow()
      res.values = [0 for n in self.names]
      return
    res.status = 'proved'

  def candidates(self, failing, sizes):
    """Sizes for which an array is too large but fits in memory."""
    z = self.symbols()
    out = []
    for xs in itertools.islice(itertools.product((2, 3, 1, 4), repeat=len(self.names)), 64):
      v = dict(zip(self.names, xs))
      sub = [(z[n], z3.IntVal(x)) for n, x in v.items()]
      if max(value(p, sub) for p in failing) > self.bound(v) and max(value(p, sub) for p in sizes) <= 5 * 10 ** 7:
        out.append(v)
        if len(out) == 2:
          break
    return out

  def validate(self, cf, by, res, seed):
    """The encoded sizes are the real ones on small sizes."""
    rnd = random.Random(seed)
    v = {n: rnd.randrange(1, 3) for n in self.names}
    z = self.symbols()
    sub = [(z[n], z3.IntVal(x)) for n, x in v.items()]
    outs = [t for o in cf.graph.get_operations() for t in o.outputs if t.name in by and o.type != 'Placeholder'
            and t.dtype.is_floating]
    outs = outs[::max(1, len(outs) // 40)]
    real = self.fetch(cf, outs, v)
    for t, x in zip(outs, real):
      if x is not None and [value(q, sub) for q in by[t.name].dims] != list(x.shape):
        raise Unsupported('encoding disagrees on the sizes of %s' % t.name)
    res.tv_points += 1

  def fetch(self, cf, outs, v):
    rs = np.random.RandomState(1)
    ts = [rs.normal(size=[v[q] if isinstance(q, str) else q for q in s]).astype(a.dtype)
          for a in self.args for s in a.shapes()]
    ts = [t if t.dtype.kind == 'f' else t * 0 for t in ts]
    feed = {t.name: x for t, x in zip(cf.inputs, ts)}
    with tf.compat.v1.Session(graph=cf.graph) as sess:
      try:
        return sess.run([t.name for t in outs], feed)
      except tf.errors.OpError:
        pass
      real = []
      for t in outs:
        # None where the real code fails
        try:
          real.append(sess.run(t.name, feed))
        except tf.errors.OpError:
          real.append(None)
      return real

  def steps_grow(self):
    a, b, c = (self.count(d) for d in self.steps)
    if c - b > 3 * (b - a):
      return 'number of steps grows faster than linearly: %d, %d, %d for %d, %d, %d cores' % ((a, b, c) + tuple(self.steps))
    return ''

  def failures(self, v):
    if v and not any(v.values()):
      return self.steps_grow()
    limit = self.bound(v)
    try:
      cf, _, _ = self.trace()
    except Exception:
      return ''
    outs = [t for o in cf.graph.get_operations() for t in o.outputs if t.dtype.is_floating]
    for k in range(0, len(outs), 25):
      part = outs[k:k + 25]
      try:
        real = self.fetch(cf, part, v)
      except Exception:
        return ''
      for t, x in zip(part, real):
        if x is not None and x.size > limit:
          return 'creates an array of %d elements (%s), more than %d, for %d cores and sizes %s' % (
              x.size, t.name, limit, self.d, ', '.join('%s=%s' % (n, v[n]) for n in self.names))
    return ''


def log_bound(c, up):
  """Rational bound of the logarithm of a positive integer."""
  if c == 1:
    return z3.RealVal(0)
  return z3.RealVal(str(round(math.log(c) + (1e-9 if up else -1e-9), 12)))


def monomials(p):
  """-> [(coefficient, factors)]; terms with a negative sign are left out."""
  if is_num(p):
    return [(int(p), [])] if p > 0 else []
  p = z3.simplify(p, som=True)
  out = []
  for t in (p.children() if z3.is_add(p) else [p]):
    c, f = (t.as_long(), []) if z3.is_int_value(t) else factors(t)
    if c > 0:
      out.append((c, f))
  return out


def log_claims(p, factor, degrees):
  """Facts and claims about logarithms that imply p <= factor * prod n^degree.

  Sizes are at least 1, so their logarithms are nonnegative reals; products
  become sums, and a minimum is at most everything it is taken of.
  """
  facts, done = [], set()

  def log(f):
    if z3.is_app_of(f, z3.Z3_OP_IDIV) and z3.is_int_value(f.children()[1]):
      # a quotient by a number is at most the dividend
      x = z3.Real('log ' + f.sexpr())
      ms = monomials(f.children()[0])
      facts.append(z3.Or([x <= total(m, len(ms)) for m in ms]))
      return x
    if not (z3.is_const(f) and f.decl().kind() == z3.Z3_OP_UNINTERPRETED):
      raise Unsupported('size %s' % f)
    x = z3.Real('log ' + str(f))
    if str(f) not in done:
      done.add(str(f))
      facts.append(x >= 0)
      if f.sexpr() in _parts:
        for y in _parts[f.sexpr()]:
          ms = monomials(y)
          if len(ms) == 1:
            facts.append(x <= total(ms[0], 1))
      elif str(f).startswith('max!'):
        e = [d for y, d in _defs.values() if y.eq(f)][0]
        ms = [(m, len(p)) for y in e.children()[1:] for p in [monomials(y)] for m in p]
        facts.append(z3.Or([x <= total(m, k) for m, k in ms] + [x <= 0]))
      elif str(f) not in degrees:
        raise Unsupported('size %s' % f)
    return x

  def total(m, k):
    return z3.Sum([log_bound(m[0] * k, True)] + [log(f) for f in m[1]])

  ms = monomials(p)
  limit = z3.Sum([log_bound(factor, False)] + [degrees[n] * log(z3.Int(n)) for n in degrees])
  return facts, [total(m, len(ms)) <= limit for m in ms] + [z3.BoolVal(True)]
