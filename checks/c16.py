"""C16: Riemannian projection."""
import numpy as np
import tensorflow as tf
import t3f
from engine.harness import Case
from engine.sym import TT, Dense, ETT, ein, total, prod
from checks import grid, tangent


def inner(a, b):
  return total(np.asarray(a) * np.asarray(b))


def label(t):
  return '%s %s' % (t.name, grid.label(t))


def elems(dense, batch):
  return [dense] if batch is None else [dense[i] for i in range(batch)]


def pairing_claims(where, outs, refs, core=None):
  return [('pairing %d' % i, tangent.pairings(where, o, core), tangent.pairings(where, r, core))
          for i, (o, r) in enumerate(zip(outs, refs))]


def exact_claims(where, outs, refs):
  return [('projection %d' % i, tangent.merge(o, where), tangent.projected(where, r))
          for i, (o, r) in enumerate(zip(outs, refs))]


def result(where, z, batch):
  return ETT(None, where.modes, where.cols, batch)


def made(name, args, prog, refs, batch, core=None):
  """refs(views) -> dense objects whose projections are expected."""
  def check(S, vs, outs):
    return pairing_claims(vs[0], elems(outs[0].dense(), batch), refs(*vs), core)

  def numeric(vs, outs):
    return exact_claims(vs[0], elems(outs[0].dense(), batch), refs(*vs))
  return Case(name, args, prog, lambda *vs: ETT(None, vs[0].modes, vs[0].cols, batch),
              check=check, numeric=numeric)


def project(x, z, core=None):
  return made('project %s on %s%s' % (label(z), label(x), '' if core is None else ' core %d' % core), [x, z], lambda a, b: t3f.project(b, a),
              lambda v, w: elems(w.dense(), z.batch), z.batch, core)


def framed(x, z):
  """Against the projector built from the orthogonal forms of the point."""
  def prog(a, b):
    left = t3f.orthogonalize_tt_cores(a)
    return [t3f.project(b, a), left, t3f.orthogonalize_tt_cores(left, left_to_right=False)]

  def check(S, vs, outs):
    l, r = outs[1].val(), outs[2].val()
    return [('projection %d' % i, tangent.merge(o, vs[0]), tangent.project_frames(l, r, w))
            for i, (o, w) in enumerate(zip(elems(outs[0].dense(), z.batch), elems(vs[1].dense(), z.batch)))]

  def numeric(vs, outs):
    return exact_claims(vs[0], elems(outs[0].dense(), z.batch), elems(vs[1].dense(), z.batch))
  return Case('project %s on %s by frames' % (label(z), label(x)), [x, z], prog,
              lambda v, w: [result(v, w, z.batch), None, None], check=check, numeric=numeric)


def weighted(w, c):
  """Dense sums sum_i c[i] w[i] (one per column)."""
  d = w.dense()
  if w.batch is None:
    return [d]
  if c is None:
    return [sum(d[i] for i in range(1, w.batch)) + d[0] if w.batch > 1 else d[0]]
  c = c.reshape(w.batch, -1)
  return [ein('i,i...->...', c[:, j], d) if d.dtype != object else
          sum([d[i] * c[i, j] for i in range(1, w.batch)], d[0] * c[0, j])
          for j in range(c.shape[1])]


def project_sum(x, z, shape=None):
  """shape: of the weights, or None."""
  args = [x, z]
  batch = None
  if shape is None:
    prog = lambda a, b: t3f.project_sum(b, a)
    refs = lambda v, w: weighted(w, None)
  else:
    args.append(Dense('c', shape, dtype=x.dtype))
    batch = shape[1] if len(shape) == 2 and shape[1] > 1 else None
    prog = lambda a, b, c: t3f.project_sum(b, a, weights=c)
    refs = lambda v, w, c: weighted(w, c)
  return made('project_sum %s weights %s on %s' % (label(z), shape, label(x)), args, prog, refs, batch)


def project_matmul(x, z, A):
  def refs(v, w, m):
    M = m.dense()
    return [ein('ij,jk->ik', M, e) for e in elems(w.dense(), z.batch)]
  return made('project_matmul %s times %s on %s' % (label(A), label(z), label(x)), [x, z, A],
              lambda a, b, m: t3f.project_matmul(b, a, m), refs, z.batch)


def symmetric(x, y, z):
  """<Py, z> = <Py, Pz>, so P is self-adjoint and idempotent."""
  def prog(a, b, c):
    return [t3f.project(b, a), t3f.project(c, a)]

  def check(S, vs, outs):
    p, q = outs[0].dense(), outs[1].dense()
    return [('symmetry', np.asarray(inner(p, vs[2].dense())), np.asarray(inner(p, q)))]
  return Case('symmetry %s %s on %s' % (label(y), label(z), label(x)), [x, y, z], prog,
              lambda v, *ws: [result(v, None, None)] * 2, check=check)


def trace(x):
  """The trace of P is the dimension of the tangent space."""
  sizes = list(x.modes) if x.cols is None else [a * b for a, b in zip(x.modes, x.cols)]
  N = prod(sizes)

  def prog(a):
    cores = []
    for k, n in enumerate(sizes):
      idx = np.unravel_index(np.arange(N), sizes)[k]
      c = np.eye(n)[idx].reshape((N, 1, x.modes[k]) + (() if x.cols is None else (x.cols[k],)) + (1,))
      cores.append(tf.constant(c, dtype=a.dtype))
    return t3f.project(t3f.TensorTrainBatch(cores), a)

  def check(S, vs, outs):
    d = outs[0].dense()
    tr = total(np.stack([tangent.merge(d[i], vs[0]).reshape(-1)[i] for i in range(N)]))
    return [('trace', np.asarray(tr), np.asarray(tangent.dim(vs[0])))]
  return Case('trace on %s' % label(x), [x], prog, lambda v: result(v, None, N), check=check)


def cases(tier):
  out = []
  more = tier == 'thorough'
  pts = [((2, 2), (1, 1, 1)), ((2, 3), (1, 2, 1)), ((3, 2), (1, 1, 1)), ((1, 3), (1, 1, 1)), ((3, 3), (1, 2, 1)),
         ((2, 2, 2), (1, 1, 1, 1)), ((2, 2, 2), (1, 2, 1, 1)), ((2, 2, 2), (1, 1, 2, 1)), ((2, 2, 2), (1, 2, 2, 1)),
         ((2, 1, 2), (1, 2, 2, 1)), ((1, 3, 2), (1, 1, 2, 1)), ((3, 2, 1), (1, 2, 1, 1)), ((2, 1, 2, 1), (1, 1, 1, 1, 1)), ((1, 2, 1, 2, 1), (1, 1, 1, 1, 1, 1))]
  if more:
    pts += [((3, 3), (1, 3, 1)), ((4, 2), (1, 2, 1)), ((2, 3, 2), (1, 2, 2, 1)), ((2, 2, 2, 2), (1, 1, 1, 1, 1)),
            ((2, 1, 2, 2), (1, 2, 1, 1, 1))]
  mats = [((2, 1), (1, 2), (1, 2, 1)), ((2, 1), (1, 1), (1, 1, 1)), ((1, 2), (2, 2), (1, 2, 1)),
          ((1, 2, 1), (2, 1, 2), (1, 2, 1, 1)), ((1, 2, 1, 1), (1, 1, 1, 2), (1, 1, 1, 1, 1))]
  for m, r in reversed(pts):
    d = len(m)
    x = TT('x', m, r)
    big = prod(m) > 6 and max(r) > 1
    zr = (1,) * (d + 1) if big or (d == 3 and max(r) > 1 and not more) else (1,) + (2,) * (d - 1) + (1,)
    if sum(r) > 5 and prod(m) > 6:
      out += [project(x, TT('z', m, zr), core=k) for k in range(d)]
    else:
      out.append(project(x, TT('z', m, zr)))
    out.append(trace(x))
    if sum(r) < 6 and max(r) < 3:
      out.append(symmetric(x, TT('y', m, 1), TT('z', m, 1)))
    if sum(r) > 5 and prod(m) > 6 and (not more or prod(m) > 8):
      continue
    hard = d == 3 and max(r) > 1
    for b in (1, 2, 3):
      if hard and b > (2 if more else 1):
        continue
      z = TT('z', m, (1,) * (d + 1), batch=b)
      out.append(project(x, z))
      out.append(project_sum(x, z))
      out.append(project_sum(x, z, (b,)))
      if not hard:
        out.append(project_sum(x, z, (b, 1)))
        out.append(project_sum(x, z, (b, 2)))
    out.append(project_sum(x, TT('z', m, (1,) * (d + 1) if hard else zr)))
  for m, c, r in mats:
    d = len(m)
    x = TT('x', m, r, cols=c)
    zr = (1,) + (2,) * (d - 1) + (1,) if d == 2 or more else (1,) * (d + 1)
    out.append(project(x, TT('z', m, zr, cols=c)))
    out.append(symmetric(x, TT('y', m, 1, cols=c), TT('z', m, 1, cols=c)))
    out.append(trace(x))
    out.append(project_sum(x, TT('z', m, zr, cols=c)))
    for b in (1, 2):
      if b == 2 and d == 3 and not more:
        continue
      z = TT('z', m, (1,) * (d + 1), cols=c, batch=b)
      out += [project(x, z), project_sum(x, z), project_sum(x, z, (b,)), project_sum(x, z, (b, 2))]
  # matrix times vector; the vectors are TT matrices
  mv = [((2, 2), (1, 1), (1, 2, 1)), ((2, 1), (1, 2), (1, 1, 1)), ((1, 2), (2, 1), (1, 2, 1)),
        ((2, 2, 1), (1, 1, 1), (1, 2, 1, 1)), ((1, 2, 2), (1, 1, 1), (1, 1, 2, 1)), ((2, 2, 2), (1, 1, 1), (1, 1, 1, 1)),
        ((2, 1, 2, 1), (1, 1, 1, 1), (1, 1, 1, 1, 1)), ((1, 2, 1, 1, 2), (1, 1, 1, 1, 1), (1, 1, 1, 1, 1, 1))]
  for m, c, r in mv:
    d = len(m)
    x = TT('x', m, r, cols=c)
    A = TT('A', m, (1,) + (2,) * (d - 1) + (1,) if d == 2 else 1, cols=m)
    for b in (None, 1, 2):
      if b == 2 and prod(m) * prod(c) > 4 and not more:
        continue
      out.append(project_matmul(x, TT('z', m, (1,) + (2,) * (d - 1) + (1,) if b is None and d == 2 else 1, cols=c, batch=b), A))
  fr = [((2, 3, 2), (1, 2, 2, 1)), ((3, 3), (1, 3, 1)), ((2, 2, 2, 2), (1, 2, 2, 2, 1)), ((3, 1, 3), (1, 2, 2, 1)),
        ((3, 4), (1, 2, 1)), ((2, 2, 2, 2), (1, 2, 3, 2, 1)), ((2, 2, 1, 2, 2), (1, 2, 2, 2, 2, 1))]
  for m, r in fr:
    for b in (None, 2):
      out.append(framed(TT('x', m, r), TT('z', m, 2 if b is None and len(m) < 5 else 1, batch=b)))
  for m, c, r in (((2, 2), (2, 1), (1, 2, 1)), ((2, 1, 2), (1, 2, 2), (1, 2, 2, 1)), ((2, 2, 2), (1, 1, 2), (1, 2, 3, 1))):
    out.append(framed(TT('x', m, r, cols=c), TT('z', m, 2, cols=c)))
  m, r = (2, 2), (1, 1, 1)
  x = TT('x', m, r, dtype='float32')
  out += [project(x, TT('z', m, (1, 2, 1), dtype='float32')), project_sum(x, TT('z', m, 1, batch=2, dtype='float32'), (2,)),
          project(x, TT('z', m, 1, batch=2, dtype='float32')), project_sum(x, TT('z', m, 1, batch=2, dtype='float32'), (2, 2))]
  return out
