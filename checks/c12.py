"""C12: orthogonalisation."""
import numpy as np
import t3f
from engine.harness import Case
from engine.sym import TT, ETT, ein, eye
from checks import grid


def unfold_gram(core, left):
  m = core.reshape(-1, core.shape[-1]) if left else core.reshape(core.shape[0], -1).T
  return ein('ki,kj->ij', m, m)


def orth(t, left, default=False):
  def check(S, vs, outs):
    o = outs[0].val()
    cl = []
    for b in range(t.batch or 1):
      e = o.elem(b)
      for k in (range(e.d - 1) if left else range(1, e.d)):
        g = unfold_gram(e.cores[k], left)
        cl.append(('core %d orthonormal' % k, g, eye(len(g), like=g)))
    ok = all(p <= q for p, q in zip(o.ranks, t.ranks))
    cl.append(('ranks %s -> %s' % (t.ranks, o.ranks), np.array([ok]), None, 'bool'))
    return cl

  def prog(a):
    return t3f.orthogonalize_tt_cores(a) if default else t3f.orthogonalize_tt_cores(a, left_to_right=left)
  return Case('%s%s %s' % ('left' if left else 'right', ' default' if default else '', grid.label(t)), [t],
              prog, lambda x: ETT(x.dense(), x.modes, x.cols, x.batch), check=check, meta=True)


OVER = [((2, 2), (1, 3, 1)), ((2, 2, 2), (1, 3, 4, 1)), ((1, 3, 1), (1, 2, 2, 1)), ((2, 2, 2), (1, 2, 5, 1)),
        ((2, 2, 2), (1, 5, 2, 1))]


def cases(tier):
  ts = grid.both('a', tier)
  ts += [TT('a', m, r) for m, r in OVER]
  ts += [TT('a', (1, 2), (1, 3, 1), cols=(1, 2)), TT('a', (2, 1), (1, 3, 1), cols=(1, 2)),
         TT('a', (2, 1, 1), (1, 3, 2, 1), cols=(1, 2, 1))]
  ts += grid.both('a', 'quick', dtype='float32')[3::4]
  out = []
  for t in ts:
    out += [orth(t, True), orth(t, False)]
  bs = []
  for b in (1, 2, 3):
    bs += grid.both('a', tier, batch=b)
  bs += [TT('a', m, r, batch=2) for m, r in OVER]
  bs += [TT('a', (2, 1), (1, 3, 1), cols=(1, 2), batch=2), TT('a', (2, 3), (1, 2, 1), batch=2, dtype='float32')]
  out += [orth(t, True) for t in bs]
  out += [orth(t, True, True) for t in ts[1:9:3] + bs[1:9:3]]
  # cores with rows or columns of zeros, repeated slices: rank-deficient for all values
  for left in (True, False):
    out += [deficient(m, r, cols, batch, left) for m, r, cols, batch in
            (((2, 3), (1, 2, 1), None, None), ((2, 2, 2), (1, 2, 2, 1), None, None),
             ((2, 2), (1, 2, 1), (1, 2), None), ((2, 2, 2), (1, 2, 2, 1), None, 2)) if left or batch is None]
  # unknown sizes
  for u in ('n', 'r', 'nr'):
    t = TT('a', (2, 3, 2), (1, 2, 3, 1), unknown=u)
    out += [orth(t, True), orth(t, False)]
  out += [orth(TT('a', (2, 3), (1, 2, 1), batch=2, unknown=u), True) for u in ('b', 'r', 'rb')]
  out += [orth(TT('a', (2, 1, 2), (1, 2, 2, 1), cols=(1, 2, 2), unknown='r'), l) for l in (True, False)]
  return out


def deficient(modes, ranks, cols, batch, left):
  """a + a in doubled cores: every unfolding has dependent columns."""
  t = TT('a', modes, ranks, cols=cols, batch=batch)
  d2 = TT('a', modes, (1,) + tuple(2 * r for r in ranks[1:-1]) + (1,), cols=cols, batch=batch)
  c = orth(d2, left)
  return Case('%s deficient %s' % ('left' if left else 'right', grid.label(t)), [t],
              lambda a: t3f.orthogonalize_tt_cores(doubled(a), left_to_right=left),
              lambda x: ETT(2 * x.dense(), x.modes, x.cols, x.batch), check=c.check)


def doubled(a):
  import tensorflow as tf
  off = 1 if isinstance(a, t3f.TensorTrainBatch) else 0
  cores = []
  for k, c in enumerate(a.tt_cores):
    if a.ndims() > 1:
      z = tf.zeros_like(c)
      if k == 0:
        c = tf.concat([c, c], axis=-1)
      elif k == a.ndims() - 1:
        c = tf.concat([c, c], axis=off)
      else:
        c = tf.concat([tf.concat([c, z], axis=-1), tf.concat([z, c], axis=-1)], axis=off)
    cores.append(c)
  return type(a)(cores)
