"""C18: Riemannian gradients and Hessian-by-vector products."""
import numpy as np
import t3f
from engine.harness import Case
from engine.sym import TT, Dense, ETT, ein, prod, total
from checks import grid, tangent
from checks.c16 import label


def ip(a, b):
  return total(np.asarray(a) * np.asarray(b))


class F(object):
  """A function of a TT object: library form, dense value, gradient and
  Hessian product, and the TT arguments it needs besides x."""

  def __init__(self, extra, f, value, grad, hess=None):
    self.extra = extra      # x spec -> list of further arguments
    self.f = f              # (x, *params) -> number
    self.value = value      # dense forms
    self.grad = grad
    self.hess = hess        # (x, v, *params)

  def scale(self, x, *ps):
    return abs(self.value(np.abs(x), *[-np.abs(p) for p in ps])) + abs(self.value(np.abs(x), *[np.abs(p) for p in ps]))


def same(name, rank=1):
  return lambda x: [TT(name, x.modes, rank, cols=x.cols, dtype=x.dtype)]


def square(name, rank=1):
  return lambda x: [TT(name, x.modes, rank, cols=x.modes, dtype=x.dtype)]


def mv(A, x):
  return ein('ij,jk->ik', A, x)


def none(x):
  return []


FUNCS = {
    'linear': F(same('t', 2), lambda x, t: t3f.flat_inner(x, t), ip, lambda x, t: t),
    'half square': F(same('t'), lambda x, t: 0.5 * t3f.flat_inner(x, t) ** 2, lambda x, t: ip(x, t) ** 2 / 2,
                     lambda x, t: t * ip(x, t), lambda x, v, t: t * ip(v, t)),
    'square norm': F(none, lambda x: t3f.frobenius_norm_squared(x, differentiable=True), lambda x: ip(x, x),
                     lambda x: 2 * x, lambda x, v: 2 * v),
    'distance': F(same('t'), lambda x, t: t3f.frobenius_norm_squared(x - t, differentiable=True),
                  lambda x, t: ip(x - t, x - t), lambda x, t: 2 * x - 2 * t, lambda x, v, t: 2 * v),
    'quartic': F(none, lambda x: t3f.flat_inner(x, x) ** 2, lambda x: ip(x, x) ** 2,
                 lambda x: x * (4 * ip(x, x)), lambda x, v: v * (4 * ip(x, x)) + x * (8 * ip(x, v))),
    'bilinear': F(square('A', 2), lambda x, A: t3f.bilinear_form(A, x, x), lambda x, A: ip(x, mv(A, x)),
                  lambda x, A: mv(A, x) + mv(A.T, x), lambda x, v, A: mv(A, v) + mv(A.T, v)),
    'matmul': F(square('A'), lambda x, A: t3f.flat_inner(t3f.matmul(A, x), x), lambda x, A: ip(x, mv(A, x)),
                lambda x, A: mv(A, x) + mv(A.T, x), lambda x, v, A: mv(A, v) + mv(A.T, v)),
    'elementwise': F(same('t'), lambda x, t: t3f.flat_inner(x * x, t), lambda x, t: ip(x * x, t),
                     lambda x, t: 2 * (x * t), lambda x, v, t: 2 * (v * t)),
}


def unmerge(y, v):
  """Inverse of tangent.merge."""
  if not v.matrix:
    return y
  d = v.d
  y = y.reshape([q for a, b in zip(v.modes, v.cols) for q in (a, b)])
  y = np.transpose(y, list(range(0, 2 * d, 2)) + list(range(1, 2 * d, 2)))
  return y.reshape(prod(v.modes), prod(v.cols))


def frames(a):
  left = t3f.orthogonalize_tt_cores(a)
  return [left, t3f.orthogonalize_tt_cores(left, left_to_right=False)]


def good(fn, extra):
  """Points where the value is not lost in rounding."""
  F = FUNCS[fn]

  def ok(vs):
    x = vs[0].dense().astype(float)
    ps = [p.dense().astype(float) for p in vs[-extra:]] if extra else []
    return abs(F.value(x, *ps)) > 1e-2 * F.scale(x, *ps)
  return ok


def gradient(fn, x, runtime_check=True):
  F = FUNCS[fn]
  extra = F.extra(x)

  def prog(a, *ps):
    g = t3f.gradients(lambda y: F.f(y, *ps), a, runtime_check=runtime_check)
    return [g] + frames(a)

  def spec(v, *ps):
    return [ETT(None, v.modes, v.cols, None), None, None]

  def check(S, vs, outs):
    l, r = outs[1].val(), outs[2].val()
    x = r.dense() if S.symbolic else vs[0].dense()
    ref = F.grad(x, *[p.dense() for p in vs[1:]])
    return [('gradient', tangent.merge(outs[0].dense(), vs[0]), tangent.project_frames(l, r, ref))]

  def numeric(vs, outs):
    ref = F.grad(*[p.dense() for p in vs])
    return [('gradient', tangent.merge(outs[0].dense(), vs[0]), tangent.projected(vs[0], ref))]
  return Case('gradient of %s at %s%s' % (fn, label(x), '' if runtime_check else ' no check'),
              [x] + extra, prog, spec, check=check, numeric=numeric, good=good(fn, len(extra)))


def hessian(fn, x, rank=1, runtime_check=True):
  F = FUNCS[fn]
  v = TT('v', x.modes, rank, cols=x.cols, dtype=x.dtype)
  extra = F.extra(x)

  def prog(a, b, *ps):
    h = t3f.hessian_vector_product(lambda y: F.f(y, *ps), a, b, runtime_check=runtime_check)
    return [h] + frames(a)

  def spec(x_, *rest):
    return [ETT(None, x_.modes, x_.cols, None), None, None]

  def check(S, vs, outs):
    l, r = outs[1].val(), outs[2].val()
    x = r.dense() if S.symbolic else vs[0].dense()
    pv = unmerge(tangent.project_frames(l, r, vs[1].dense()), vs[0])
    ref = F.hess(x, pv, *[p.dense() for p in vs[2:]])
    return [('hessian product', tangent.merge(outs[0].dense(), vs[0]), tangent.project_frames(l, r, ref))]

  def numeric(vs, outs):
    pv = unmerge(tangent.projected(vs[0], vs[1].dense()), vs[0])
    ref = F.hess(vs[0].dense(), pv, *[p.dense() for p in vs[2:]])
    return [('hessian product', tangent.merge(outs[0].dense(), vs[0]), tangent.projected(vs[0], ref))]
  return Case('hessian of %s times %s at %s%s' % (fn, label(v), label(x), '' if runtime_check else ' no check'),
              [x, v] + extra, prog, spec, check=check, numeric=numeric, good=good(fn, len(extra)))


def moved(fn, x, own, runtime_check=True):
  """The vector is a tangent vector, of another point or of x itself."""
  F = FUNCS[fn]
  v, y = (TT(n, x.modes, 1, cols=x.cols, dtype=x.dtype) for n in 'vy')
  extra = F.extra(x)

  def prog(a, b, c, *ps):
    b = t3f.project(b, a if own else c)
    h = t3f.hessian_vector_product(lambda y: F.f(y, *ps), a, b, runtime_check=runtime_check)
    return [h, b] + frames(a)

  def spec(x_, *rest):
    return [ETT(None, x_.modes, x_.cols, None)] * 2 + [None, None]

  def check(S, vs, outs):
    l, r = outs[2].val(), outs[3].val()
    x = r.dense() if S.symbolic else vs[0].dense()
    pv = unmerge(tangent.project_frames(l, r, outs[1].dense()), vs[0])
    ref = F.hess(x, pv, *[p.dense() for p in vs[3:]])
    return [('hessian product', tangent.merge(outs[0].dense(), vs[0]), tangent.project_frames(l, r, ref))]

  def numeric(vs, outs):
    pv = unmerge(tangent.projected(vs[0], outs[1].dense()), vs[0])
    ref = F.hess(vs[0].dense(), pv, *[p.dense() for p in vs[3:]])
    return [('hessian product', tangent.merge(outs[0].dense(), vs[0]), tangent.projected(vs[0], ref))]
  return Case('hessian of %s times tangent vector of %s at %s%s' % (
      fn, 'the point' if own else 'another point', label(x), '' if runtime_check else ' no check'),
              [x, v, y] + extra, prog, spec, check=check, numeric=numeric, good=good(fn, len(extra)))


def cases(tier):
  out = []
  more = tier == 'thorough'
  pts = [TT('x', (2, 2), 1), TT('x', (2, 3), (1, 2, 1)), TT('x', (3, 2), 1), TT('x', (2, 2, 2), 1),
         TT('x', (3, 2, 1), (1, 2, 1, 1)), TT('x', (2, 1), (1, 2, 1), cols=(1, 2)), TT('x', (2, 2), 1, cols=(1, 1)),
         TT('x', (2, 2), (1, 2, 1), cols=(1, 1)), TT('x', (2, 1, 2), 1, cols=(1, 1, 1)), TT('x', (3, 3), (1, 2, 1)),
         TT('x', (2, 2, 2), (1, 2, 2, 1)), TT('x', (2, 2, 2), (1, 1, 2, 1)), TT('x', (1, 2, 2), (1, 1, 2, 1), cols=(2, 1, 1)),
         TT('x', (2, 1, 2, 1), 1), TT('x', (1, 2, 1, 1), 1, cols=(1, 1, 2, 1)),
         TT('x', (2, 2), 1, dtype='float32')]
  if more:
    pts += [TT('x', (2, 3, 2), (1, 2, 2, 1)), TT('x', (2, 2, 2, 2), 1), TT('x', (4, 2), (1, 2, 1)),
            TT('x', (2, 2, 2), (1, 2, 1, 1), cols=(1, 1, 1)), TT('x', (2, 3), (1, 2, 1), cols=(2, 1)),
            TT('x', (2, 3), (1, 2, 1), dtype='float32')]
  for x in reversed(pts):
    vec = x.cols is not None and prod(x.cols) == 1
    hard = sum(x.ranks) > 4 and len(x.modes) > 2
    for fn in FUNCS:
      if fn in ('bilinear', 'matmul') and not vec:
        continue
      for rc in (True, False):
        if hard and fn in ('quartic', 'half square', 'distance', 'elementwise') and (rc or (sum(x.ranks) > 5 and not more)):
          continue
        if not (fn == 'quartic' and prod(x.modes) > 11):
          out.append(gradient(fn, x, rc))
        if FUNCS[fn].hess is not None:
          if fn == 'quartic' and x.cols == (2, 1) and x.modes == (2, 3) or hard and fn == 'bilinear':
            continue
          if hard and (fn == 'quartic' or sum(x.ranks) > 5 and (not more or fn == 'half square')):
            continue
          out.append(hessian(fn, x, 1, rc))
          if more and not hard and not (fn == 'quartic' and max(x.ranks) > 1):
            out.append(hessian(fn, x, 2, rc))
  for x in pts[:4] + (pts[5:6] if more else []):
    for fn in ('half square', 'square norm'):
      out += [moved(fn, x, own, rc) for own in (True, False) for rc in (True, False)]
  return out
