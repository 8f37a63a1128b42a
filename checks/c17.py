"""C17: sums and inner products inside one tangent space."""
import numpy as np
import t3f
from t3f import riemannian
from engine.harness import Case
from engine.sym import TT, Dense, ETT, ein, prod, total
from checks import grid
from checks.c16 import label


def stacked(o):
  d = o.dense()
  return d if o.meta['batchobj'] else d[None]


def gram(a, b):
  out = np.empty((len(a), len(b)), dtype=a.dtype)
  for i in range(len(a)):
    for j in range(len(b)):
      out[i, j] = total(a[i] * b[j])
  return out


def projector(kind, z):
  """Ways to get an object of the tangent space at x."""
  if kind == 'sum':
    return lambda a, b: t3f.project_sum(b, a)
  if kind == 'columns':
    w = np.array([[1, -2], [3, 1], [2, 2]])[:z.batch]
    return lambda a, b: t3f.project_sum(b, a, weights=w)
  return lambda a, b: t3f.project(b, a)


def out_batch(kind, z):
  return {'sum': None, 'columns': 2}.get(kind, z.batch)


def inner(x, z1, z2, kinds=('', ''), tag=''):
  p1, p2 = projector(kinds[0], z1), projector(kinds[1], z2)

  def prog(a, b, c):
    u, v = p1(a, b), p2(a, c)
    return [t3f.pairwise_flat_inner_projected(u, v), u, v]

  def spec(v, w1, w2):
    return [None, ETT(None, v.modes, v.cols, out_batch(kinds[0], z1)), ETT(None, v.modes, v.cols, out_batch(kinds[1], z2))]

  def check(S, vs, outs):
    return [('inner products', np.asarray(outs[0]), gram(stacked(outs[1]), stacked(outs[2])))]
  return Case('inner %s%s%s %s on %s' % (tag, label(z1), ' '.join(k and ' ' + k for k in kinds), label(z2), label(x)),
              [x, z1, z2], prog, spec, check=check)


def add(x, zs, coef=None, kinds=None, tag=''):
  """coef: None, 'vector' or 'matrix'."""
  n = len(zs)
  b = zs[0].batch
  kinds = kinds or [''] * n
  args = [x] + zs
  if coef is not None:
    args.append(Dense('c', (n,) if coef == 'vector' else (n, b), dtype=x.dtype))

  def prog(a, *rest):
    ps = [projector(k, z)(a, r) for k, z, r in zip(kinds, zs, rest)]
    if coef is None:
      s = t3f.add_n_projected(ps)
    else:
      s = t3f.add_n_projected(ps, coef=rest[-1])
    return [s] + ps

  def spec(v, *rest):
    e = ETT(None, v.modes, v.cols, b)
    return [e] * (n + 1)

  def check(S, vs, outs):
    ds = [o.dense() for o in outs[1:]]
    if coef is None:
      ref = ds[0]
      for d in ds[1:]:
        ref = ref + d
    elif coef == 'vector':
      ref = sum([ds[i] * vs[-1][i] for i in range(1, n)], ds[0] * vs[-1][0])
    else:
      ref = np.stack([sum([ds[i][j] * vs[-1][i, j] for i in range(1, n)], ds[0][j] * vs[-1][0, j]) for j in range(b)])
    cl = [('sum', outs[0].dense(), ref)]
    r0, r1 = outs[0].val().ranks, outs[1].val().ranks
    cl.append(('ranks %s of the sum, %s of the terms' % (list(r0), list(r1)), np.array([tuple(r0) == tuple(r1)]), None, 'bool'))
    return cl
  return Case('add %s%d of %s coef %s on %s' % (tag, n, label(zs[0]), coef, label(x)), args, prog, spec, check=check)


def twice(x, z1, z2):
  """Sums can be used where projections can."""
  def prog(a, b, c):
    u, v = t3f.project(b, a), t3f.project(c, a)
    s = t3f.add_n_projected((u, v))
    return [t3f.pairwise_flat_inner_projected(s, u), s, u]

  def check(S, vs, outs):
    return [('inner products', np.asarray(outs[0]), gram(stacked(outs[1]), stacked(outs[2])))]
  return Case('inner of a sum %s %s on %s' % (label(z1), label(z2), label(x)), [x, z1, z2], prog, check=check)


def deltas(x, z, given=False, kind='', tag=''):
  def prog(a, b):
    p = projector(kind, z)(a, b)
    ds = riemannian.tangent_space_to_deltas(p)
    if given:
      left = t3f.orthogonalize_tt_cores(a)
      right = t3f.orthogonalize_tt_cores(left, left_to_right=False)
      q = riemannian.deltas_to_tangent_space(ds, a, left, right)
    else:
      q = riemannian.deltas_to_tangent_space(ds, a)
    return [q, p]

  def spec(v, w):
    e = ETT(None, v.modes, v.cols, out_batch(kind, z))
    return [e, e]

  def check(S, vs, outs):
    return [('assembled', outs[0].dense(), outs[1].dense())]
  return Case('deltas %s%s%s%s on %s' % (tag, label(z), ' given frames' if given else '', kind and ' ' + kind, label(x)),
              [x, z], prog, spec, check=check)


def cases(tier):
  out = []
  more = tier == 'thorough'
  pts = [((2, 2), (1, 1, 1)), ((2, 3), (1, 2, 1)), ((3, 2), (1, 1, 1)), ((1, 3), (1, 1, 1)), ((3, 3), (1, 2, 1)),
         ((2, 2, 2), (1, 1, 1, 1)), ((2, 2, 2), (1, 2, 1, 1)), ((2, 2, 2), (1, 1, 2, 1)), ((2, 1, 2), (1, 2, 2, 1)),
         ((1, 3, 2), (1, 1, 2, 1)), ((2, 2, 2), (1, 2, 2, 1)), ((2, 1, 2, 1), (1, 1, 1, 1, 1)), ((2, 2, 2, 2), (1, 1, 1, 1, 1))]
  if more:
    pts += [((4, 2), (1, 2, 1)), ((2, 3, 2), (1, 2, 2, 1)), ((2, 1, 2, 2), (1, 2, 2, 1, 1))]
  objs = [(m, None, r) for m, r in pts]
  objs += [((2, 1), (1, 2), (1, 2, 1)), ((2, 1), (1, 1), (1, 1, 1)), ((1, 2), (2, 2), (1, 2, 1)),
           ((1, 2, 1), (2, 1, 2), (1, 2, 1, 1)), ((1, 2, 1, 1), (2, 1, 1, 2), (1, 1, 1, 1, 1))]
  for i, (m, c, r) in enumerate(objs):
    d = len(m)
    x = TT('x', m, r, cols=c)
    hard = max(r) > 1 and d > 2

    def z(name, b=None, rank=1):
      return TT(name, m, rank, cols=c, batch=b)
    if not hard or sum(r) < 6:
      out.append(inner(x, z('y'), z('z')))
    if not hard or (sum(r) < 6 and more):
      out += [inner(x, z('y', 1), z('z', 2)), inner(x, z('y', 2), z('z'))]
    if d == 2 or (more and max(r) == 1 and d == 3):
      out += [inner(x, z('y', 2), z('z', 3)), inner(x, z('y', 2), z('z', 2), ('sum', 'columns')),
              inner(x, z('y', rank=2), z('z', 3), ('', 'sum')), twice(x, z('y', 1), z('z', 1)), twice(x, z('y'), z('z'))]
    zz = [z('y'), z('z'), z('w')]
    out += [add(x, zz[:2]), add(x, zz), add(x, zz[:1]), add(x, zz[:2], 'vector')]
    if d == 2:
      out += [add(x, [z('y', rank=2), z('z', 2), z('w', 3)], 'vector', ['', 'sum', 'sum'])]
    for b in (1, 2, 3):
      if b == 3 and i % 3:
        continue
      zb = [z('y', b), z('z', b)]
      out += [add(x, zb), add(x, zb[:1]), add(x, zb[:1], 'matrix'), add(x, zb, 'vector'), add(x, zb, 'matrix')]
    out += [deltas(x, z('z')), deltas(x, z('z', 1)), deltas(x, z('z', 2)), deltas(x, z('z'), True),
            deltas(x, z('z', 2), False, 'sum'), deltas(x, z('z', 2), True, 'columns')]
    if more:
      out += [deltas(x, z('z', 3)), deltas(x, z('z', 2), True), add(x, [z('y', 3), z('z', 3), z('w', 3)], 'matrix')]
  f = dict(dtype='float32')
  x = TT('x', (2, 2), 1, **f)
  out += [inner(x, TT('y', (2, 2), 1, **f), TT('z', (2, 2), 1, batch=2, **f)),
          add(x, [TT('y', (2, 2), 1, batch=2, **f), TT('z', (2, 2), 1, batch=2, **f)], 'matrix'),
          deltas(x, TT('z', (2, 2), 1, **f))]
  # points whose ranks exceed what the neighbouring modes can hold
  for m, r in (((2, 2), (1, 3, 1)), ((2, 2, 2), (1, 2, 5, 1)), ((2, 2, 2), (1, 3, 2, 1)), ((2, 1, 3), (1, 2, 3, 1))):
    x = TT('x', m, r, sparse=2)
    if r != (1, 3, 2, 1):
      out.append(inner(x, TT('y', m, 1), TT('z', m, 1), tag='over-ranked '))
    out += [add(x, [TT('y', m, 1), TT('z', m, 1)], tag='over-ranked '), deltas(x, TT('z', m, 1), tag='over-ranked ')]
  return out
