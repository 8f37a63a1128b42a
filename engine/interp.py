"""Symbolic interpreter for TensorFlow graph ops (the traced IR of /repo code).

Values are numpy arrays.  Floating tensors are object arrays of exact numbers
or Terms.  Integer/bool tensors are ordinary numpy arrays while concrete and
object arrays once symbolic.
"""
import itertools
import math
from fractions import Fraction
import numpy as np
import tensorflow as tf

from engine import terms as T
from engine.terms import Term, Unsupported
from engine import contracts

HANDLERS = {}


class SymbolicRuntimeError(Exception):
  """The program provably raises at run time (e.g. concrete assert fails)."""


def op(*names):
  def deco(f):
    for n in names:
      HANDLERS[n] = f
    return f
  return deco


def is_sym(a):
  return a.dtype == object and any(isinstance(x, Term) for x in a.flat)


def obj(shape, fill=0):
  a = np.empty(shape, dtype=object)
  a[...] = fill
  return a


def to_exact(a):
  """numpy float array -> object array of exact numbers."""
  a = np.asarray(a)
  if a.dtype == object:
    return a
  out = np.empty(a.shape, dtype=object)
  of = out.reshape(-1)
  for i, x in enumerate(a.reshape(-1)):
    of[i] = T.norm_num(x)
  return of.reshape(a.shape)


def as_obj(a):
  return a if a.dtype == object else to_exact(a)


def conc(a):
  """Concrete integer array or Unsupported."""
  if a.dtype != object:
    return a
  if is_sym(a):
    raise Unsupported('symbolic value where a concrete size is needed')
  return np.array([int(x) for x in a.reshape(-1)], dtype=np.int64).reshape(a.shape)


def simp_int(a):
  """Object array of plain ints -> int array."""
  if a.dtype == object and not is_sym(a) and all(isinstance(x, (int, bool)) for x in a.flat):
    if a.size and all(isinstance(x, bool) for x in a.flat):
      return a.astype(bool)
    return a.astype(np.int64)
  return a


def lift2(f, a, b):
  a, b = np.broadcast_arrays(a, b)
  out = np.empty(a.shape, dtype=object)
  of = out.reshape(-1)
  for i, (x, y) in enumerate(zip(a.flat, b.flat)):
    of[i] = f(x, y)
  return of.reshape(a.shape)


def lift1(f, a):
  out = np.empty(a.shape, dtype=object)
  of = out.reshape(-1)
  for i, x in enumerate(a.flat):
    of[i] = f(x)
  return of.reshape(a.shape)


def unravel_index(i, dims):
  out = []
  for k, n in enumerate(dims):
    stride = int(np.prod(dims[k + 1:], dtype=np.int64))
    out.append(lift1(lambda v: T.imod(T.idiv(v, stride), n), i) if i.dtype == object else i // stride % n)
  return np.stack(out)


def sum_axes(a, axes, keepdims=False):
  """Sum object array over the given axes with n-ary sums."""
  nd = a.ndim
  axes = tuple(sorted(x % nd for x in axes))
  rest = [i for i in range(nd) if i not in axes]
  b = np.transpose(a, rest + list(axes)).reshape([a.shape[i] for i in rest] + [-1]) \
      if a.size else None
  oshape = [a.shape[i] for i in rest]
  out = obj(oshape)
  if a.size:
    flat = b.reshape(-1, b.shape[-1])
    of = out.reshape(-1)
    for i in range(flat.shape[0]):
      of[i] = T.nsum(flat[i])
    out = of.reshape(oshape)
  if keepdims:
    out = out.reshape([1 if i in axes else a.shape[i] for i in range(nd)])
  return out


def einsum(eq, *ops):
  """Small exact einsum for object (or float) arrays; supports '...'."""
  eq = eq.replace(' ', '')
  lhs, rhs = eq.split('->') if '->' in eq else (eq, None)
  subs = lhs.split(',')
  if '...' in eq:
    pool = [c for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ' if c not in eq]
    nb = max(o.ndim - (len(s) - 3) for s, o in zip(subs, ops) if '...' in s)
    bl = ''.join(pool[:nb])
    new = []
    for s, o in zip(subs, ops):
      if '...' in s:
        k = o.ndim - (len(s) - 3)
        s = s.replace('...', bl[nb - k:] if k else '')
      new.append(s)
    subs = new
    if rhs is None:
      raise Unsupported('implicit einsum output')
    rhs = rhs.replace('...', bl)
  if rhs is None:
    cnt = {}
    for s in subs:
      for c in s:
        cnt[c] = cnt.get(c, 0) + 1
    rhs = ''.join(sorted(c for c in cnt if cnt[c] == 1))
  terms = list(zip(subs, ops))
  # repeated labels within one operand -> diagonal
  terms = [_diag(s, o) for s, o in terms]
  while len(terms) > 2:
    (s1, a), (s2, b) = terms[0], terms[1]
    keep = set(rhs).union(*[set(s) for s, _ in terms[2:]])
    out = ''.join(dict.fromkeys(c for c in s1 + s2 if c in keep))
    terms = [(out, _ein2(s1, a, s2, b, out))] + terms[2:]
  if len(terms) == 1:
    s, a = terms[0]
    red = [i for i, c in enumerate(s) if c not in rhs]
    if red:
      a = sum_axes(a, red) if a.dtype == object else a.sum(axis=tuple(red))
      s = ''.join(c for c in s if c in rhs)
    uniq = ''.join(dict.fromkeys(rhs))
    if len(uniq) != len(rhs):
      raise Unsupported('einsum generalized output diagonal')
    return np.transpose(a, [s.index(c) for c in rhs])
  (s1, a), (s2, b) = terms
  return _ein2(s1, a, s2, b, rhs)


def _diag(s, o):
  while len(set(s)) != len(s):
    for c in s:
      if s.count(c) > 1:
        i = s.index(c)
        j = s.index(c, i + 1)
        if o.shape[i] != o.shape[j]:
          raise SymbolicRuntimeError('einsum label %s mismatch' % c)
        o = np.diagonal(o, axis1=i, axis2=j)  # appended last
        s = ''.join(ch for k, ch in enumerate(s) if k not in (i, j)) + c
        break
  return s, o


def _ein2(s1, a, s2, b, out):
  dims = {}
  for s, o in ((s1, a), (s2, b)):
    for c, n in zip(s, o.shape):
      if c in dims and dims[c] != n and not (c.isupper() and 1 in (dims[c], n)):
        raise SymbolicRuntimeError('einsum dimension mismatch')
      dims[c] = max(dims.get(c, 1), n) if n != 0 else 0
  for c in out:
    if c not in dims:
      raise Unsupported('einsum output label')
  # sum labels present in one operand only
  con = [c for c in dict.fromkeys(s1 + s2) if c not in out]
  lab = list(dict.fromkeys(out)) + con
  def arrange(s, o):
    perm = [s.index(c) for c in lab if c in s]
    o = np.transpose(o, perm)
    shp = [o.shape[[c for c in lab if c in s].index(c)] if c in s else 1 for c in lab]
    return o.reshape(shp)
  A, B = arrange(s1, a), arrange(s2, b)
  full = [dims[c] for c in lab]
  if a.dtype != object and b.dtype != object:
    r = (A * B)
    r = np.broadcast_to(r, full)
    return r.sum(axis=tuple(range(len(out), len(lab)))) if con else r
  no = len(out)
  A = np.broadcast_to(A, full).reshape([int(np.prod(full[:no], dtype=int)), -1]) if np.prod(full) else None
  if A is None:
    return obj(full[:no])
  B = np.broadcast_to(B, full).reshape(A.shape)
  res = np.empty(A.shape[0], dtype=object)
  mul, nsum = T.mul, T.nsum
  for i in range(A.shape[0]):
    Ai, Bi = A[i], B[i]
    res[i] = nsum([mul(x, y) for x, y in zip(Ai, Bi)
                   if not ((x.__class__ is not Term and x == 0) or (y.__class__ is not Term and y == 0))])
  return res.reshape(full[:no])


# --------------------------------------------------------------- structural

@op('Identity', 'StopGradient', 'PreventGradient', 'Snapshot', 'EnsureShape',
    'CheckNumerics', 'PlaceholderWithDefault')
def _identity(ctx, o, x):
  return x


@op('IdentityN')
def _identity_n(ctx, o, *xs):
  return list(xs)


@op('NoOp', 'ControlTrigger', 'PrintV2', 'Print')
def _noop(ctx, o, *xs):
  return []


@op('Assert')
def _assert(ctx, o, cond, *data):
  c = cond.reshape(-1)[0] if cond.dtype == object else bool(cond)
  if isinstance(c, Term):
    ctx.asserts.append(c)
  elif not c:
    raise SymbolicRuntimeError('assertion fails')
  return []


@op('Const')
def _const(ctx, o):
  v = tf.make_ndarray(o.get_attr('value'))
  if v.dtype.kind == 'f' or v.dtype == tf.bfloat16.as_numpy_dtype:
    return to_exact(v)
  return v


@op('Reshape')
def _reshape(ctx, o, x, s):
  s = [int(v) for v in conc(s).reshape(-1)]
  if -1 in s:
    known = int(np.prod([v for v in s if v != -1], dtype=int))
    if s.count(-1) > 1 or known == 0 or x.size % known:
      raise SymbolicRuntimeError('reshape %s to %s' % (x.shape, s))
  elif int(np.prod(s, dtype=int)) != x.size:
    raise SymbolicRuntimeError('reshape %s to %s' % (x.shape, s))
  return x.reshape(s)


@op('Transpose', 'ConjugateTranspose')
def _transpose(ctx, o, x, p):
  return np.transpose(x, [int(v) for v in conc(p)])


@op('ExpandDims')
def _expand(ctx, o, x, ax):
  ax = int(conc(ax).reshape(-1)[0])
  if ax < 0:
    ax += x.ndim + 1
  return x.reshape(x.shape[:ax] + (1,) + x.shape[ax:])


@op('Squeeze')
def _squeeze(ctx, o, x):
  dims = list(o.get_attr('squeeze_dims'))
  if not dims:
    return x.reshape([d for d in x.shape if d != 1])
  dims = [d % x.ndim for d in dims]
  for d in dims:
    if x.shape[d] != 1:
      raise SymbolicRuntimeError('squeeze of axis of size %d' % x.shape[d])
  return x.reshape([n for i, n in enumerate(x.shape) if i not in dims])


@op('ConcatV2')
def _concat(ctx, o, *xs):
  ax = int(conc(xs[-1]).reshape(-1)[0])
  xs = list(xs[:-1])
  if any(x.dtype == object for x in xs):
    xs = [as_obj(x) for x in xs]
  try:
    return np.concatenate(xs, axis=ax)
  except ValueError as e:
    raise SymbolicRuntimeError('concat: %s' % e)


@op('Pack')
def _pack(ctx, o, *xs):
  if any(x.dtype == object for x in xs):
    xs = [as_obj(x) for x in xs]
  ax = o.get_attr('axis')
  return np.stack(xs, axis=ax)


@op('Unpack')
def _unpack(ctx, o, x):
  ax = o.get_attr('axis')
  return [np.take(x, i, axis=ax) if x.ndim > 1 else _scalar(x[i], x.dtype) for i in range(x.shape[ax])]


def _scalar(v, dtype):
  a = np.empty((), dtype=dtype)
  a[()] = v
  return a


@op('Split')
def _split(ctx, o, ax, x):
  return np.split(x, o.get_attr('num_split'), axis=int(conc(ax)))


@op('SplitV')
def _splitv(ctx, o, x, sizes, ax):
  sizes = [int(v) for v in conc(sizes)]
  ax = int(conc(ax))
  if -1 in sizes:
    sizes[sizes.index(-1)] = x.shape[ax] - (sum(sizes) + 1)
  return np.split(x, np.cumsum(sizes)[:-1], axis=ax)


@op('Fill')
def _fill(ctx, o, dims, v):
  dims = [int(d) for d in conc(dims).reshape(-1)]
  a = np.empty(dims, dtype=v.dtype)
  a[...] = v.reshape(-1)[0] if v.dtype == object else v
  return a


def _is_float(t):
  return t.dtype.is_floating


@op('ZerosLike')
def _zeros_like(ctx, o, x):
  return obj(x.shape, 0) if _is_float(o.outputs[0]) else np.zeros(x.shape, x.dtype if x.dtype != object else np.int64)


@op('OnesLike')
def _ones_like(ctx, o, x):
  return obj(x.shape, 1) if _is_float(o.outputs[0]) else np.ones(x.shape, x.dtype if x.dtype != object else np.int64)


@op('Shape')
def _shape(ctx, o, x):
  return np.array(x.shape, dtype=np.int64)


@op('ShapeN')
def _shape_n(ctx, o, *xs):
  return [np.array(x.shape, dtype=np.int64) for x in xs]


@op('Size')
def _size(ctx, o, x):
  return np.array(x.size, dtype=np.int64)


@op('Rank')
def _rank(ctx, o, x):
  return np.array(x.ndim, dtype=np.int64)


@op('Tile')
def _tile(ctx, o, x, m):
  return np.tile(x, [int(v) for v in conc(m)])


@op('BroadcastTo')
def _broadcast_to(ctx, o, x, s):
  return np.broadcast_to(x, [int(v) for v in conc(s)])


@op('Range')
def _range(ctx, o, a, b, c):
  return np.arange(int(conc(a)), int(conc(b)), int(conc(c)), dtype=np.int64)


@op('Pad', 'PadV2')
def _pad(ctx, o, x, p, v=None):
  p = [(int(a), int(b)) for a, b in conc(p)]
  c = 0 if v is None else v.reshape(-1)[0]
  if x.dtype == object:
    out = obj([n + a + b for n, (a, b) in zip(x.shape, p)], c)
    out[tuple(slice(a, a + n) for n, (a, b) in zip(x.shape, p))] = x
    return out
  return np.pad(x, p, constant_values=int(c))


@op('Slice')
def _slice(ctx, o, x, begin, size):
  begin = [int(v) for v in conc(begin)]
  size = [int(v) for v in conc(size)]
  sl = tuple(slice(b, x.shape[i] if s == -1 else b + s)
             for i, (b, s) in enumerate(zip(begin, size)))
  return x[sl]


@op('ReverseV2')
def _reverse(ctx, o, x, ax):
  return np.flip(x, tuple(int(a) for a in conc(ax).reshape(-1)))


@op('Roll')
def _roll(ctx, o, x, sh, ax):
  return np.roll(x, [int(a) for a in conc(sh).reshape(-1)], [int(a) for a in conc(ax).reshape(-1)])


def _ss_parse(o, ndim, begin, end, strides):
  """StridedSlice -> list of ('new'|'ell'|'int',v|'sl',slice) entries."""
  bm, em = o.get_attr('begin_mask'), o.get_attr('end_mask')
  el, na, sh = (o.get_attr('ellipsis_mask'), o.get_attr('new_axis_mask'),
                o.get_attr('shrink_axis_mask'))
  n = len(begin)
  spec = []
  for i in range(n):
    bit = 1 << i
    if el & bit:
      spec.append(('ell', None))
    elif na & bit:
      spec.append(('new', None))
    elif sh & bit:
      spec.append(('int', begin[i]))
    else:
      b = None if bm & bit else begin[i]
      e = None if em & bit else end[i]
      spec.append(('sl', (b, e, strides[i])))
  used = sum(1 for k, _ in spec if k in ('int', 'sl'))
  out = []
  seen = False
  for k, v in spec:
    if k == 'ell':
      out += [('sl', (None, None, 1))] * (ndim - used)
      seen = True
    else:
      out.append((k, v))
  if not seen:
    out += [('sl', (None, None, 1))] * (ndim - used)
  return out


def _symval(v):
  """int or Term"""
  if isinstance(v, Term):
    return v
  return int(v)


def _tf_slice(b, e, s, n):
  """TF strided-slice bound semantics equal numpy's."""
  for q in (b, e, s):
    if isinstance(q, Term):
      raise Unsupported('symbolic slice bound')
  return slice(None if b is None else int(b), None if e is None else int(e), int(s))


@op('StridedSlice')
def _strided_slice(ctx, o, x, begin, end, strides):
  spec = _ss_parse(o, x.ndim, list(begin.reshape(-1)), list(end.reshape(-1)),
                   list(strides.reshape(-1)))
  return apply_slice(ctx, x, spec)


def apply_slice(ctx, x, spec):
  axis = 0
  for k, v in spec:
    if k == 'new':
      x = x.reshape(x.shape[:axis] + (1,) + x.shape[axis:])
      axis += 1
    elif k == 'int':
      v = _symval(v)
      n = x.shape[axis]
      if isinstance(v, Term):
        x = sym_take(ctx, x, v, axis)
      else:
        if not -n <= v < n:
          raise SymbolicRuntimeError('index %d out of range %d' % (v, n))
        i = v % n
        sl = [slice(None)] * x.ndim
        sl[axis] = slice(i, i + 1)
        y = x[tuple(sl)]
        x = y.reshape(x.shape[:axis] + x.shape[axis + 1:])
    else:
      b, e, s = v
      if any(isinstance(q, Term) for q in (b, e)) and int(s) == 1:
        # x[i:i+1] style slices with symbolic bounds of constant width
        w = _const_width(b, e)
        if w is None:
          raise Unsupported('symbolic slice bound')
        parts = [sym_take(ctx, x, T.add(b, k2), axis) for k2 in range(w)]
        x = np.stack(parts, axis=axis)
      else:
        sl = [slice(None)] * x.ndim
        sl[axis] = _tf_slice(b, e, s, x.shape[axis])
        x = x[tuple(sl)]
      axis += 1
  return x


def _const_width(b, e):
  if isinstance(e, Term) and e.op == 'add' and len(e.args) == 2:
    for p, q in (e.args, e.args[::-1]):
      if p is b and not isinstance(q, Term) and q > 0:
        return int(q)
  return None


def sym_take(ctx, x, i, axis):
  """x.take(i, axis) for a symbolic integer with TF's negative wrap-around."""
  n = x.shape[axis]
  ctx.asserts.append(T.and_(T.le(-n, i), T.lt(i, n)))
  rows = [as_obj(np.take(x, k, axis=axis) if x.ndim > 1 else _scalar(x[k], x.dtype))
          for k in range(n)]
  if not rows:
    raise SymbolicRuntimeError('index into empty axis')
  out = rows[-1]
  for k in range(n - 2, -1, -1):
    c = T.or_(T.eq(i, k), T.eq(i, k - n))
    out = lift2(lambda p, q, c=c: T.ite(c, p, q), rows[k], out)
  return out


@op('StridedSliceGrad')
def _strided_slice_grad(ctx, o, shape, begin, end, strides, dy):
  shape = [int(v) for v in conc(shape)]
  spec = _ss_parse(o, len(shape), list(begin.reshape(-1)), list(end.reshape(-1)),
                   list(strides.reshape(-1)))
  idx = np.arange(int(np.prod(shape, dtype=int))).reshape(shape)
  sel = apply_slice(ctx, idx, spec)
  out = obj(int(np.prod(shape, dtype=int)))
  for k, v in zip(sel.reshape(-1), as_obj(dy).reshape(-1)):
    if isinstance(k, Term):
      for i in range(out.size):
        out[i] = T.add(out[i], T.ite(T.eq(k, i), v, 0))
    else:
      out[k] = T.add(out[k], v)
  return out.reshape(shape)


@op('GatherV2')
def _gather(ctx, o, x, idx, axis):
  axis = int(conc(axis)) % x.ndim
  bd = o.get_attr('batch_dims')
  if bd:
    if bd < 0:
      bd += idx.ndim
    outs = [_gather_one(ctx, x[i], idx[i], axis - bd) for i in np.ndindex(*x.shape[:bd])]
    r = np.stack(outs)
    return r.reshape(x.shape[:bd] + r.shape[1:])
  return _gather_one(ctx, x, idx, axis)


def _gather_one(ctx, x, idx, axis):
  idx = np.asarray(idx)
  if not is_sym(idx):
    idx = conc(idx)
    if idx.size and (idx.min() < 0 or idx.max() >= x.shape[axis]):
      raise SymbolicRuntimeError('gather index out of range')
    return np.take(x, idx, axis=axis)
  parts = []
  for v in idx.reshape(-1):
    v = _symval(v)
    if isinstance(v, Term):
      ctx.asserts.append(T.and_(T.le(0, v), T.lt(v, x.shape[axis])))
      parts.append(_take_nonneg(x, v, axis))
    else:
      parts.append(as_obj(np.take(x, v, axis=axis)))
  r = np.stack(parts) if parts else obj((0,) + x.shape[:axis] + x.shape[axis + 1:])
  r = r.reshape(idx.shape + x.shape[:axis] + x.shape[axis + 1:])
  k = idx.ndim
  order = list(range(k, k + axis)) + list(range(k)) + list(range(k + axis, r.ndim))
  return np.transpose(r, order)


def _take_nonneg(x, i, axis):
  n = x.shape[axis]
  rows = [as_obj(np.asarray(np.take(x, k, axis=axis)) if x.ndim > 1 else _scalar(x[k], x.dtype))
          for k in range(n)]
  out = rows[-1]
  for k in range(n - 2, -1, -1):
    c = T.eq(i, k)
    out = lift2(lambda p, q, c=c: T.ite(c, p, q), rows[k], out)
  return out


@op('GatherNd')
def _gather_nd(ctx, o, x, idx):
  k = idx.shape[-1]
  outs = []
  for row in idx.reshape(-1, k):
    cur = as_obj(x)
    for v in row:
      v = _symval(v)
      if isinstance(v, Term):
        ctx.asserts.append(T.and_(T.le(0, v), T.lt(v, cur.shape[0])))
        cur = _take_nonneg(cur, v, 0)
      else:
        if not 0 <= v < cur.shape[0]:
          raise SymbolicRuntimeError('gather_nd index out of range')
        cur = cur[v] if cur.ndim > 1 else _scalar(cur[v], object)
    outs.append(cur)
  return np.stack(outs).reshape(idx.shape[:-1] + x.shape[k:])


def _added(cur, parts, conds):
  """cur plus the parts whose conditions hold."""
  r = np.asarray(cur, dtype=object)
  for p, c in zip(parts, conds):
    r = lift2(T.add, r, lift1(lambda v, c=c: T.ite(c, v, 0), np.asarray(p, dtype=object)))
  return r if r.ndim else r[()]


@op('ScatterNd')
def _scatter_nd(ctx, o, idx, upd, shape):
  shape = [int(v) for v in conc(shape)]
  out = obj(shape)
  k = idx.shape[-1]
  if is_sym(idx):
    rows = as_obj(idx).reshape(-1, k)
    ui = as_obj(upd).reshape((rows.shape[0],) + tuple(shape[k:]))
    for at in np.ndindex(*shape[:k]):
      out[at] = _added(out[at], ui, [T.and_(*[T.eq(_symval(v), i) for v, i in zip(r, at)]) for r in rows])
    return out
  idx = conc(idx)
  ui = upd.reshape((-1,) + tuple(shape[k:]))
  for j, row in enumerate(idx.reshape(-1, k)):
    cur = out[tuple(row)]
    r = lift2(T.add, np.asarray(cur, dtype=object), ui[j])
    out[tuple(row)] = r if r.ndim else r[()]
  return out


@op('TensorScatterUpdate')
def _tsu(ctx, o, x, idx, upd):
  idx = conc(idx)
  out = as_obj(x).copy()
  k = idx.shape[-1]
  ui = as_obj(upd).reshape((-1,) + tuple(x.shape[k:]))
  for j, row in enumerate(idx.reshape(-1, k)):
    v = ui[j]
    out[tuple(row)] = v if v.ndim else v[()]
  return out


@op('UnsortedSegmentSum')
def _uss(ctx, o, data, ids, num):
  n = int(conc(num))
  data = as_obj(data)
  out = obj((n,) + data.shape[ids.ndim:])
  d = data.reshape((-1,) + data.shape[ids.ndim:])
  if is_sym(ids):
    for i in range(n):
      out[i] = _added(out[i], d, [T.eq(_symval(v), i) for v in as_obj(ids).reshape(-1)])
    return out
  ids = conc(ids)
  for j, i in enumerate(ids.reshape(-1)):
    if i >= 0:
      r = lift2(T.add, np.asarray(out[i], dtype=object), np.asarray(d[j], dtype=object))
      out[i] = r if r.ndim else r[()]
  return out


@op('OneHot')
def _one_hot(ctx, o, idx, depth, on, off):
  n = int(conc(depth))
  ax = o.get_attr('axis')
  on, off = on.reshape(-1)[0], off.reshape(-1)[0]
  out = np.stack([lift1(lambda v, k=k: T.ite(T.eq(_symval(v), k), on, off), idx) for k in range(n)],
                 axis=idx.ndim if ax == -1 else ax)
  return out


@op('InvertPermutation')
def _invperm(ctx, o, p):
  return np.argsort(conc(p))


@op('ConcatOffset')
def _concat_offset(ctx, o, ax, *shapes):
  ax = int(conc(ax))
  acc = 0
  outs = []
  for s in shapes:
    s = conc(s)
    z = np.zeros_like(s)
    z[ax] = acc
    acc += int(s[ax])
    outs.append(z)
  return outs


@op('BroadcastGradientArgs')
def _bga(ctx, o, s0, s1):
  s0, s1 = [list(conc(s)) for s in (s0, s1)]
  n = max(len(s0), len(s1))
  a = [1] * (n - len(s0)) + s0
  b = [1] * (n - len(s1)) + s1
  # axes to sum for each operand
  r0 = [i for i in range(n) if a[i] == 1 and (b[i] != 1 or i < n - len(s0))]
  r1 = [i for i in range(n) if b[i] == 1 and (a[i] != 1 or i < n - len(s1))]
  return [np.array(r0, np.int64), np.array(r1, np.int64)]


@op('BroadcastArgs')
def _ba(ctx, o, s0, s1):
  return np.array(np.broadcast_shapes(tuple(conc(s0)), tuple(conc(s1))), np.int64)


# --------------------------------------------------------------- arithmetic

def _floaty(o):
  return o.outputs[0].dtype.is_floating


def binop(f, g):
  def h(ctx, o, a, b):
    try:
      np.broadcast_shapes(a.shape, b.shape)
    except ValueError:
      raise SymbolicRuntimeError('incompatible shapes %s %s' % (a.shape, b.shape))
    if a.dtype != object and b.dtype != object:
      return g(a, b)
    return lift2(f, as_obj(a), as_obj(b))
  return h


HANDLERS['AddV2'] = HANDLERS['Add'] = binop(T.add, lambda a, b: a + b)
HANDLERS['Sub'] = binop(lambda x, y: T.add(x, T.neg(y)), lambda a, b: a - b)
HANDLERS['Mul'] = HANDLERS['MulNoNan'] = binop(T.mul, lambda a, b: a * b)
HANDLERS['Maximum'] = binop(T.maximum, np.maximum)
HANDLERS['Minimum'] = binop(T.minimum, np.minimum)
HANDLERS['Equal'] = binop(T.eq, lambda a, b: a == b)
HANDLERS['NotEqual'] = binop(lambda x, y: T.not_(T.eq(x, y)), lambda a, b: a != b)
HANDLERS['Less'] = binop(T.lt, lambda a, b: a < b)
HANDLERS['LessEqual'] = binop(T.le, lambda a, b: a <= b)
HANDLERS['Greater'] = binop(lambda x, y: T.lt(y, x), lambda a, b: a > b)
HANDLERS['GreaterEqual'] = binop(lambda x, y: T.le(y, x), lambda a, b: a >= b)
HANDLERS['LogicalAnd'] = binop(T.and_, np.logical_and)
HANDLERS['LogicalOr'] = binop(T.or_, np.logical_or)
HANDLERS['FloorDiv'] = binop(T.idiv, lambda a, b: a // b)
HANDLERS['FloorMod'] = binop(T.imod, lambda a, b: a % b)
HANDLERS['UnravelIndex'] = lambda ctx, o, i, dims: unravel_index(i, [int(v) for v in dims.flat])
HANDLERS['SquaredDifference'] = binop(
    lambda x, y: T.mul(T.add(x, T.neg(y)), T.add(x, T.neg(y))), lambda a, b: (a - b) ** 2)


def _trunc_div(x, y):
  if T.is_num(x) and T.is_num(y):
    q = abs(x) // abs(y)
    return q if (x >= 0) == (y >= 0) else -q
  raise Unsupported('symbolic truncated division')


HANDLERS['Div'] = HANDLERS['TruncateDiv'] = lambda ctx, o, a, b: (
    lift2(lambda x, y: contracts.divide(ctx, x, y), as_obj(a), as_obj(b)) if _floaty(o)
    else simp_int(lift2(_trunc_div, a, b)))
HANDLERS['RealDiv'] = lambda ctx, o, a, b: lift2(
    lambda x, y: contracts.divide(ctx, x, y), as_obj(a), as_obj(b))
HANDLERS['DivNoNan'] = lambda ctx, o, a, b: lift2(
    lambda x, y: (0 if T.is_num(y) and y == 0 else contracts.divide(ctx, x, y) if T.is_num(y) else
                  T.ite(T.eq(y, 0), 0, contracts.divide(ctx, x, y))), as_obj(a), as_obj(b))


def unop(f, g):
  def h(ctx, o, a):
    if a.dtype != object:
      return g(a)
    return lift1(f, a)
  return h


HANDLERS['Neg'] = unop(T.neg, lambda a: -a)
HANDLERS['Abs'] = unop(T.abs_, np.abs)
HANDLERS['Sign'] = unop(T.sign, np.sign)
HANDLERS['Square'] = unop(lambda x: T.mul(x, x), np.square)
HANDLERS['LogicalNot'] = unop(T.not_, np.logical_not)
HANDLERS['Relu'] = unop(lambda x: T.maximum(x, 0), lambda a: np.maximum(a, 0))
HANDLERS['Real'] = HANDLERS['Conj'] = lambda ctx, o, a: a


ELEMENTWISE = {
    'Tanh': np.tanh,
    'Sigmoid': lambda v: 1 / (1 + np.exp(-v)),
    'Elu': lambda v: np.where(v > 0, v, np.expm1(np.minimum(v, 0))),
    'Softplus': lambda v: np.logaddexp(v, 0),
    'Exp': np.exp,
}


def softmax(v):
  e = np.exp(v - np.max(v, -1, keepdims=True))
  return e / np.sum(e, -1, keepdims=True)


def opaque_elementwise(ctx, name, a):
  f = ELEMENTWISE[name]
  return lift1(lambda x: contracts.opaque(ctx, name, np.asarray(x, dtype=object), f)[()], as_obj(a))


def opaque_rows(ctx, name, f, a):
  a = as_obj(a)
  out = np.empty(a.shape, dtype=object)
  for i in np.ndindex(*a.shape[:-1]):
    out[i] = contracts.opaque(ctx, name, a[i], f)
  return out


for _n in ELEMENTWISE:
  if _n not in HANDLERS:
    HANDLERS[_n] = lambda ctx, o, a, _n=_n: opaque_elementwise(ctx, _n, a)
HANDLERS['Softmax'] = lambda ctx, o, a: opaque_rows(ctx, 'Softmax', softmax, a)


@op('ReluGrad')
def _relu_grad(ctx, o, g, f):
  return lift2(lambda x, y: T.ite(T.lt(0, y), x, 0), as_obj(g), as_obj(f))


@op('Sqrt')
def _sqrt(ctx, o, a):
  return lift1(lambda x: contracts.root(ctx, x, 2), as_obj(a))


@op('Rsqrt')
def _rsqrt(ctx, o, a):
  return lift1(lambda x: contracts.divide(ctx, 1, contracts.root(ctx, x, 2)), as_obj(a))


@op('Reciprocal', 'Inv')
def _recip(ctx, o, a):
  return lift1(lambda x: contracts.divide(ctx, 1, x), as_obj(a))


@op('SqrtGrad')
def _sqrt_grad(ctx, o, y, dy):
  return lift2(lambda p, q: contracts.divide(ctx, T.mul(Fraction(1, 2), q), p), as_obj(y), as_obj(dy))


@op('ReciprocalGrad', 'InvGrad')
def _recip_grad(ctx, o, y, dy):
  return lift2(lambda p, q: T.neg(T.mul(q, T.mul(p, p))), as_obj(y), as_obj(dy))


@op('Pow')
def _pow(ctx, o, a, b):
  if a.dtype != object and b.dtype != object and a.dtype.kind in 'iu':
    return a ** b
  return lift2(lambda x, y: contracts.power(ctx, x, y), as_obj(a), as_obj(b))


@op('Log')
def _log(ctx, o, a):
  return lift1(lambda x: contracts.log(ctx, x), as_obj(a))


@op('Exp')
def _exp(ctx, o, a):
  return lift1(lambda x: contracts.exp(ctx, x), as_obj(a))


@op('AddN')
def _add_n(ctx, o, *xs):
  shape = xs[0].shape
  out = np.empty(int(np.prod(shape, dtype=int)), dtype=object)
  flats = [as_obj(x).reshape(-1) for x in xs]
  for i in range(out.size):
    out[i] = T.nsum([f[i] for f in flats])
  return simp_int(out.reshape(shape)) if not _floaty(o) else out.reshape(shape)


@op('BiasAdd')
def _bias_add(ctx, o, x, b):
  return lift2(T.add, as_obj(x), as_obj(b))


@op('Cast')
def _cast(ctx, o, x):
  dst = o.outputs[0].dtype
  if dst.is_floating:
    src = o.inputs[0].dtype
    x = lift1(T.to_real, as_obj(x))
    if getattr(ctx, 'wide', False) and src.is_floating and src != dst:
      # double precision data passes through a narrower type
      return lift1(lambda v: contracts.rounded(ctx, v), x)
    return x
  if dst.is_bool:
    if x.dtype != object:
      return x.astype(bool)
    return lift1(lambda v: T.not_(T.eq(v, 0)), x)
  if x.dtype != object:
    return x.astype(np.int64)
  return simp_int(lift1(T.to_int, x))


def _axes(ax, nd):
  return [int(v) % nd for v in conc(ax).reshape(-1)] if nd else []


@op('Sum')
def _sum(ctx, o, x, ax):
  kd = o.get_attr('keep_dims')
  axes = _axes(ax, x.ndim)
  if x.dtype != object:
    return x.sum(axis=tuple(axes), keepdims=kd)
  return sum_axes(x, axes, kd)


@op('Mean')
def _mean(ctx, o, x, ax):
  axes = _axes(ax, x.ndim)
  n = int(np.prod([x.shape[i] for i in axes], dtype=int))
  s = sum_axes(as_obj(x), axes, o.get_attr('keep_dims'))
  return lift1(lambda v: T.mul(Fraction(1, n), v), s)


def _reduce(f, unit):
  def h(ctx, o, x, ax):
    axes = _axes(ax, x.ndim)
    kd = o.get_attr('keep_dims')
    a = as_obj(x)
    rest = [i for i in range(a.ndim) if i not in axes]
    b = np.transpose(a, rest + axes).reshape([a.shape[i] for i in rest] + [-1])
    out = np.empty([a.shape[i] for i in rest], dtype=object)
    for i in np.ndindex(*out.shape):
      vals = list(b[i])
      if not vals:
        out[i] = unit
        continue
      v = vals[0]
      for w in vals[1:]:
        v = f(v, w)
      out[i] = v
    if kd:
      out = out.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
    return out if _floaty(o) else simp_int(out)
  return h


HANDLERS['Prod'] = _reduce(T.mul, 1)
HANDLERS['Max'] = _reduce(T.maximum, None)
HANDLERS['Min'] = _reduce(T.minimum, None)
HANDLERS['All'] = _reduce(T.and_, True)
HANDLERS['Any'] = _reduce(T.or_, False)


def _cum(f, unit):
  def h(ctx, o, x, ax):
    ax = int(conc(ax)) % x.ndim
    a = np.moveaxis(as_obj(x), ax, -1)
    if o.get_attr('reverse'):
      a = a[..., ::-1]
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape[:-1]):
      acc = unit
      for k in range(a.shape[-1]):
        if o.get_attr('exclusive'):
          out[i + (k,)] = acc
          acc = f(acc, a[i + (k,)])
        else:
          acc = f(acc, a[i + (k,)])
          out[i + (k,)] = acc
    if o.get_attr('reverse'):
      out = out[..., ::-1]
    out = np.moveaxis(out, -1, ax)
    return out if _floaty(o) else simp_int(out)
  return h


HANDLERS['Cumprod'] = _cum(T.mul, 1)
HANDLERS['Cumsum'] = _cum(T.add, 0)


@op('SelectV2', 'Select')
def _select(ctx, o, c, a, b):
  if o.type == 'Select' and c.ndim == 1 and a.ndim > 1:
    c = c.reshape(c.shape + (1,) * (a.ndim - 1))
  c, a, b = np.broadcast_arrays(c, as_obj(a), as_obj(b))
  out = np.empty(a.shape, dtype=object)
  of = out.reshape(-1)
  for i, (x, y, z) in enumerate(zip(c.flat, a.flat, b.flat)):
    of[i] = T.ite(x if isinstance(x, Term) else bool(x), y, z)
  out = of.reshape(a.shape)
  return out if _floaty(o) else simp_int(out)


@op('Einsum')
def _einsum(ctx, o, *xs):
  eq = o.get_attr('equation')
  return einsum(eq.decode() if isinstance(eq, bytes) else eq, *[as_obj(x) for x in xs])


@op('MatMul')
def _matmul(ctx, o, a, b):
  if o.get_attr('transpose_a'):
    a = a.T
  if o.get_attr('transpose_b'):
    b = b.T
  if a.shape[1] != b.shape[0]:
    raise SymbolicRuntimeError('matmul size mismatch')
  return einsum('ij,jk->ik', as_obj(a), as_obj(b))


@op('BatchMatMul', 'BatchMatMulV2', 'BatchMatMulV3')
def _bmm(ctx, o, a, b):
  if o.get_attr('adj_x'):
    a = np.swapaxes(a, -1, -2)
  if o.get_attr('adj_y'):
    b = np.swapaxes(b, -1, -2)
  if a.shape[-1] != b.shape[-2]:
    raise SymbolicRuntimeError('matmul size mismatch')
  return einsum('...ij,...jk->...ik', as_obj(a), as_obj(b))


@op('L2Loss')
def _l2loss(ctx, o, a):
  s = T.nsum([T.mul(x, x) for x in as_obj(a).flat])
  return _scalar(T.mul(Fraction(1, 2), s), object)


@op('MatrixDiagV3', 'MatrixDiagV2', 'MatrixDiag')
def _mdiag(ctx, o, d, *rest):
  k = int(np.asarray(conc(rest[0])).reshape(-1)[0]) if rest else 0
  if k != 0:
    raise Unsupported('off-diagonal MatrixDiag')
  n = d.shape[-1]
  out = obj(d.shape + (n,))
  for i in range(n):
    out[..., i, i] = d[..., i]
  return out


@op('MatrixDiagPartV3', 'MatrixDiagPartV2', 'MatrixDiagPart')
def _mdiagpart(ctx, o, a, *rest):
  if rest and int(np.asarray(conc(rest[0])).reshape(-1)[0]) != 0:
    raise Unsupported('off-diagonal MatrixDiagPart')
  n = min(a.shape[-2:])
  return np.stack([a[..., i, i] for i in range(n)], axis=-1)


@op('MatrixSetDiagV3', 'MatrixSetDiagV2', 'MatrixSetDiag')
def _msetdiag(ctx, o, a, d, *rest):
  out = as_obj(a).copy()
  for i in range(min(a.shape[-2:])):
    out[..., i, i] = d[..., i]
  return out


@op('MatrixBandPart')
def _band(ctx, o, a, lo, hi):
  lo, hi = int(conc(lo)), int(conc(hi))
  out = as_obj(a).copy()
  for i in range(a.shape[-2]):
    for j in range(a.shape[-1]):
      if not ((lo < 0 or i - j <= lo) and (hi < 0 or j - i <= hi)):
        out[..., i, j] = 0
  return out


def batched(x, nd, f):
  """Apply f to trailing nd-dim blocks; f returns a list of arrays."""
  lead = x.shape[:-nd]
  res = [f(x[i]) for i in np.ndindex(*lead)]
  outs = []
  for k in range(len(res[0])):
    s = np.stack([np.asarray(r[k], dtype=object) for r in res])
    outs.append(s.reshape(lead + s.shape[1:]))
  return outs


@op('Qr')
def _qr(ctx, o, x):
  full = o.get_attr('full_matrices')
  return batched(as_obj(x), 2, lambda a: contracts.qr(ctx, a, full))


@op('Svd')
def _svd(ctx, o, x):
  full, uv = o.get_attr('full_matrices'), o.get_attr('compute_uv')
  r = batched(as_obj(x), 2, lambda a: contracts.svd(ctx, a, full))
  if not uv:
    e = obj((0,))
    return [r[0], e, e]
  return r


@op('MatrixInverse')
def _minv(ctx, o, x):
  adj = o.get_attr('adjoint')
  return batched(as_obj(x), 2, lambda a: [contracts.inverse(ctx, a.T if adj else a)])[0]


@op('MatrixDeterminant')
def _mdet(ctx, o, x):
  return batched(as_obj(x), 2, lambda a: [_scalar(contracts.det(a), object)])[0]


@op('LogMatrixDeterminant')
def _logdet(ctx, o, x):
  def f(a):
    d = contracts.det(a)
    return [_scalar(T.sign(d), object), _scalar(contracts.log(ctx, T.abs_(d)), object)]
  return batched(as_obj(x), 2, f)


@op('Cholesky')
def _chol(ctx, o, x):
  return batched(as_obj(x), 2, lambda a: [contracts.cholesky(ctx, a)])[0]


@op('MatrixTriangularSolve', 'MatrixSolve')
def _msolve(ctx, o, a, b):
  adj = o.get_attr('adjoint')
  if o.type == 'MatrixTriangularSolve':
    lower = o.get_attr('lower')
    a = as_obj(a).copy()
    for i in range(a.shape[-2]):
      for j in range(a.shape[-1]):
        if (lower and j > i) or (not lower and j < i):
          a[..., i, j] = 0
  inv = batched(as_obj(a), 2, lambda m: [contracts.inverse(ctx, m.T if adj else m)])[0]
  return einsum('...ij,...jk->...ik', inv, as_obj(b))


def _draw(ctx, o, shape, kind, key):
  s = [int(v) for v in conc(shape).reshape(-1)]
  return contracts.draw(ctx, s, kind, key, o)


@op('RandomStandardNormal', 'TruncatedNormal', 'RandomUniform')
def _random(ctx, o, shape):
  kind = {'RandomStandardNormal': 'n', 'TruncatedNormal': 't', 'RandomUniform': 'u'}[o.type]
  seeds = (o.get_attr('seed'), o.get_attr('seed2'))
  # equal explicit seeds give equal streams
  return _draw(ctx, o, shape, kind, seeds if any(seeds) else None)


@op('StatelessRandomNormalV2', 'StatelessRandomUniformV2', 'StatelessTruncatedNormalV2')
def _stateless(ctx, o, shape, *rest):
  kind = {'StatelessRandomNormalV2': 'n', 'StatelessRandomUniformV2': 'u', 'StatelessTruncatedNormalV2': 't'}[o.type]
  return _draw(ctx, o, shape, kind, tuple(str(conc(r).tolist()) for r in rest))


# ------------------------------------------------------------- control flow

@op('PartitionedCall', 'StatefulPartitionedCall')
def _call(ctx, o, *xs):
  name = o.get_attr('f').name
  return run_function(ctx, o.graph, name, xs)


@op('If', 'StatelessIf')
def _if(ctx, o, cond, *xs):
  c = cond.reshape(-1)[0]
  if isinstance(c, Term):
    if c.sort != 'B':
      c = T.not_(T.eq(c, 0))
  else:
    br = o.get_attr('then_branch' if c else 'else_branch').name
    return run_function(ctx, o.graph, br, xs)
  if o.type == 'If' and ctx.state:
    raise Unsupported('stateful branch on a symbolic condition')
  n0 = len(ctx.asserts)
  a = run_function(ctx, o.graph, o.get_attr('then_branch').name, xs)
  n1 = len(ctx.asserts)
  b = run_function(ctx, o.graph, o.get_attr('else_branch').name, xs)
  ctx.asserts[n0:n1] = [T.or_(T.not_(c), q) for q in ctx.asserts[n0:n1]]
  ctx.asserts[n1:] = [T.or_(c, q) for q in ctx.asserts[n1:]]
  outs = []
  for p, q in zip(a, b):
    if p.shape != q.shape:
      raise Unsupported('branches of different shape')
    outs.append(lift2(lambda x, y: T.ite(c, x, y), as_obj(p), as_obj(q)))
  return outs


@op('While', 'StatelessWhile')
def _while(ctx, o, *xs):
  xs = list(xs)
  for _ in range(1000):
    c = run_function(ctx, o.graph, o.get_attr('cond').name, xs)[0].reshape(-1)[0]
    if isinstance(c, Term):
      raise Unsupported('loop on a symbolic condition')
    if not c:
      return xs
    xs = run_function(ctx, o.graph, o.get_attr('body').name, xs)
  raise Unsupported('loop bound exceeded')


# ---------------------------------------------------------------- variables

@op('VarHandleOp')
def _varhandle(ctx, o):
  return _scalar(('res', o.name), object)


@op('ReadVariableOp')
def _readvar(ctx, o, h):
  key = h[()]
  if key not in ctx.state:
    raise Unsupported('read of an uninitialised variable')
  ctx.effects.append(('read', key))
  return ctx.state[key]


@op('AssignVariableOp')
def _assignvar(ctx, o, h, v):
  ctx.state[h[()]] = as_obj(v)
  ctx.effects.append(('assign', h[()]))
  return []


@op('AssignAddVariableOp')
def _assignadd(ctx, o, h, v):
  ctx.state[h[()]] = lift2(T.add, ctx.state[h[()]], as_obj(v))
  ctx.effects.append(('assign', h[()]))
  return []


def run_needed(ctx, graph, feeds, fetches):
  """One session run: the ops that the fetches need, in creation order."""
  need, todo = set(), [f if isinstance(f, tf.Operation) else f.op for f in fetches]
  fed = {t.op.name for t, _ in feeds}
  while todo:
    o = todo.pop()
    if o.name in need or o.name in fed:
      continue
    need.add(o.name)
    todo += [t.op for t in o.inputs] + list(o.control_inputs)
  by_name = {t.name: v for t, v in feeds}
  for o in graph.get_operations():
    if o.name not in need:
      continue
    if o.type == 'Placeholder':
      raise Unsupported('free placeholder ' + o.name)
    run_op(ctx, o, by_name)
  return [None if isinstance(f, tf.Operation) else by_name[f.name] for f in fetches]


# ----------------------------------------------------------------- fallback

def fold_with_tf(o, xs):
  """Run one op whose inputs are all concrete with the real kernel."""
  for x in xs:
    if x.dtype == object and is_sym(x):
      raise Unsupported('op %s on symbolic values' % o.type)
  vals = []
  for x, i in zip(xs, o.inputs):
    nd = i.dtype.as_numpy_dtype
    if x.dtype == object:
      vals.append(np.array([float(v) for v in x.reshape(-1)]).reshape(x.shape).astype(nd))
    else:
      vals.append(x.astype(nd))
  g = tf.Graph()
  with g.as_default():
    ins = [tf.constant(v) for v in vals]
    node = g.create_op(o.type, ins, [t.dtype for t in o.outputs],
                       attrs={k: v for k, v in o.node_def.attr.items() if not k.startswith('_')})
  with tf.compat.v1.Session(graph=g) as s:
    outs = s.run(list(node.outputs))
  return [to_exact(v) if v.dtype.kind == 'f' else v for v in outs]


def run_function(ctx, graph, name, args):
  name = name.decode() if isinstance(name, bytes) else name
  g = graph
  fn = None
  while g is not None:
    fn = g._get_function(name)
    if fn is not None:
      break
    g = getattr(g, 'outer_graph', None)
  if fn is None:
    raise Unsupported('function %s not found' % name)
  fg = getattr(fn, 'graph', None)
  if fg is None:
    from tensorflow.python.framework import function_def_to_graph
    fg = function_def_to_graph.function_def_to_graph(fn.cached_definition if hasattr(fn, 'cached_definition') else fn.definition)
  return run_graph(ctx, fg, args, fg.outputs)


def run_op(ctx, o, by_name):
  xs = [by_name[t.name] for t in o.inputs]
  ctx.nops += 1
  ctx.op_types.add(o.type)
  h = HANDLERS.get(o.type)
  if h is None:
    r = fold_with_tf(o, xs)
  else:
    r = h(ctx, o, *xs)
  if isinstance(r, np.ndarray):
    r = [r]
  elif not isinstance(r, (list, tuple)):
    r = [np.asarray(r)]
  for t, v in zip(o.outputs, r):
    v = np.asarray(v)
    if t.dtype.is_floating and v.dtype != object:
      v = to_exact(v)
    elif t.dtype == tf.int32 and v.dtype.kind in 'iu':
      # known 32 bit integers wrap
      v = v.astype(np.int32).astype(np.int64)
    sh = t.shape
    if sh.rank is not None and t.dtype != tf.resource:
      if sh.rank != v.ndim or any(d is not None and d != n for d, n in zip(sh.as_list(), v.shape)):
        raise Unsupported('static shape %s but value shape %s at %s (%s)' % (sh, v.shape, o.name, o.type))
    by_name[t.name] = v


def run_graph(ctx, graph, args, outputs):
  """Interpret every op of a FuncGraph in creation order."""
  env = {}
  inputs = list(graph.inputs)
  if len(args) != len(inputs):
    raise Unsupported('argument count %d vs %d' % (len(args), len(inputs)))
  for t, v in zip(inputs, args):
    env[id(t)] = v
  in_names = {t.name for t in inputs}
  by_name = {t.name: v for t, v in zip(inputs, args)}
  needed = None
  for o in graph.get_operations():
    if o.outputs and o.outputs[0].name in in_names:
      continue
    if o.type == 'Placeholder':
      raise Unsupported('free placeholder ' + o.name)
    run_op(ctx, o, by_name)
  return [by_name[t.name] for t in outputs]
