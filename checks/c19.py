"""C19: Kronecker-product matrices against dense linear algebra."""
import numpy as np
import tensorflow as tf
import t3f
from engine import contracts
from engine import terms as T
from engine.harness import Case
from engine.sym import TT, ETT, ein, eye, prod
from checks.grid import label


def det(a):
  """Determinant by expansion along rows (columns used so far are shared)."""
  a = np.asarray(a)
  n = a.shape[0]
  if a.dtype != object:
    return np.linalg.det(a)
  memo = {}

  def minor(i, cols):
    if i == n:
      return 1
    if cols not in memo:
      memo[cols] = T.nsum([T.mul(T.mul((-1) ** k, a[i, c]), minor(i + 1, cols[:k] + cols[k + 1:]))
                           for k, c in enumerate(cols)])
    return memo[cols]
  return minor(0, tuple(range(n)))


def power(x, k):
  r = 1
  for _ in range(k):
    r = r * x
  return r


def full_det(v):
  """Of the dense matrix; for large ones by the rule for Kronecker products."""
  if prod(v.modes) <= 6:
    return det(v.dense())
  n = prod(v.modes)
  r = 1
  for c, m in zip(v.cores, v.modes):
    r = r * power(det(c[0, :, :, 0]), n // m)
  return r


def per_elem(v, f):
  if v.batch is None:
    return np.asarray(f(v))
  return np.array([f(v.elem(b)) for b in range(v.batch)])


def kron(modes, batch=None, dtype='float64', name='a', unknown=''):
  return TT(name, modes, 1, cols=modes, batch=batch, dtype=dtype, unknown=unknown)


def determinant(t):
  return Case('determinant ' + label(t), [t], lambda a: t3f.kronecker.determinant(a),
              lambda v: per_elem(v, full_det))


def sgn(x):
  return T.sign(x) if isinstance(x, T.Term) else np.sign(x)


def sign(t):
  return Case('sign ' + label(t), [t], lambda a: t3f.kronecker.slog_determinant(a)[0],
              lambda v: per_elem(v, lambda e: sgn(full_det(e))), good=conditioned)


def nonzero(v):
  es = [v] if v.batch is None else [v.elem(b) for b in range(v.batch)]
  return [T.not_(T.eq(det(c[0, :, :, 0]), 0)) for e in es for c in e.cores]


def logdet(t):
  def check(S, vs, outs):
    o = np.asarray(outs[1]).reshape(-1)
    ref = per_elem(vs[0], lambda e: power(full_det(e), 2)).reshape(-1)
    if S.symbolic:
      o = np.array([contracts.exp(S.ctx, T.mul(2, x)) for x in o], dtype=object)
    else:
      o, ref = 2 * o, np.log(ref)
    return [('magnitude', o, ref)]
  return Case('log magnitude ' + label(t), [t], lambda a: list(t3f.kronecker.slog_determinant(a)),
              lambda v: [per_elem(v, lambda e: sgn(full_det(e))), None], check=check, assume=nonzero, good=conditioned)


def shaped(outs, v):
  return [ETT(None, v.modes, v.cols, v.batch, ranks=(1,) * (v.d + 1))]


def inverse(t):
  def check(S, vs, outs):
    n = prod(t.modes)
    x, y = [z if t.batch is not None else z[None] for z in (outs[0].dense(), vs[0].dense())]
    e = np.stack([eye(n, like=x)] * len(x))
    return [('right', ein('bij,bjk->bik', y, x), e), ('left', ein('bij,bjk->bik', x, y), e)]
  return Case('inverse ' + label(t), [t], lambda a: t3f.kronecker.inv(a),
              lambda v: shaped(None, v), check=check, good=conditioned)


def conditioned(vs):
  v = vs[0]
  es = [v] if v.batch is None else [v.elem(b) for b in range(v.batch)]
  return all(np.linalg.cond(c[0, :, :, 0].astype(float)) < 100 for e in es for c in e.cores)


def gram(core):
  """Symmetric positive definite core from any invertible one."""
  x = core[..., 0, :, :, 0]
  return tf.matmul(x, x, transpose_b=True)[..., None, :, :, None]


def spd(a):
  cls = t3f.TensorTrain if isinstance(a, t3f.TensorTrain) else t3f.TensorTrainBatch
  return cls([gram(c) for c in a.tt_cores])


def cholesky(t):
  def check(S, vs, outs):
    g = vs[0].dense()
    l = outs[0].dense()
    g, l = [z if t.batch is not None else z[None] for z in (g, l)]
    n = prod(t.modes)
    # the dense matrix is the product of (G_1 x ... x G_d) with its transpose
    out = [('product', ein('bij,bkj->bik', l, l), ein('bij,bkj->bik', g, g))]
    up = [(i, j) for i in range(n) for j in range(i + 1, n)]
    z = np.array([x[i] for x in l for i in up])
    out.append(('upper triangle', z, np.zeros(z.shape, dtype=int)))
    pos = [T.lt(0, x[i, i]) if S.symbolic else x[i, i] > 0 for x in l for i in range(n)]
    out.append(('positive diagonal', np.array(pos, dtype=object), True, 'bool'))
    return out
  return Case('cholesky ' + label(t), [t], lambda a: t3f.kronecker.cholesky(spd(a)),
              lambda v: shaped(None, v), check=check, good=conditioned)


OPS = {'determinant': lambda a: t3f.kronecker.determinant(a),
       'slog_determinant': lambda a: list(t3f.kronecker.slog_determinant(a)),
       'inv': lambda a: t3f.kronecker.inv(a),
       'cholesky': lambda a: t3f.kronecker.cholesky(a)}


def rejected(op, t):
  return Case('%s rejects %s' % (op, label(t)), [t], OPS[op], raises=(ValueError,))


def cases(tier):
  out = []
  more = tier == 'thorough'
  modes = [(1,), (2,), (3,), (2, 1), (2, 2), (2, 3), (3, 2), (1, 3), (3, 3), (2, 1, 2), (1, 2, 3), (2, 2, 2), (3, 1, 2), (2, 1, 1, 2), (1, 2, 1, 2, 1)]
  if more:
    modes += [(4,), (4, 2), (2, 3, 2), (2, 2, 2, 2), (1, 1, 2, 3), (4, 3), (2, 4, 1)]
  for m in modes:
    for b in (None, 1, 2, 3):
      if b == 3 and len(m) > 2 and not more:
        continue
      for dt in ('float64', 'float32'):
        if dt == 'float32' and (b == 3 or len(m) == 1):
          continue
        t = kron(m, b, dt)
        out += [determinant(t), inverse(t), cholesky(t)]
        # the case split over signs of large determinants is slow
        if max(m) < 4 and (prod(m) < 9 or more and b is None and prod(m) < 10):
          out += [sign(t), logdet(t)]
  for u in ('n', 'b', 'nb'):
    for m in ((2, 3), (3,), (1, 2, 2)):
      for b in (None, 2):
        if b is None and 'b' in u:
          continue
        t = kron(m, b, unknown=u)
        out += [determinant(t), sign(t), logdet(t), inverse(t), cholesky(t)]
  bad = []
  for b in (None, 2):
    bad += [TT('a', (2, 2), (1, 2, 1), cols=(2, 2), batch=b), TT('a', (2, 3), 1, cols=(3, 2), batch=b),
            TT('a', (2, 2, 2), (1, 1, 2, 1), cols=(2, 2, 2), batch=b), TT('a', (2, 2), 1, batch=b),
            TT('a', (2, 3), 1, cols=(2, 2), batch=b), TT('a', (4,), 1, batch=b), TT('a', (1, 6), 1, cols=(6, 1), batch=b),
            TT('a', (1,), 1, cols=(2,), batch=b), TT('a', (2, 4), 1, cols=(4, 2), batch=b),
            TT('a', (2, 2, 2), (1, 2, 1, 1), cols=(2, 2, 2), batch=b), TT('a', (1, 1), (1, 3, 1), cols=(1, 1), batch=b)]
  for t in bad:
    out += [rejected(op, t) for op in OPS]
  return out
