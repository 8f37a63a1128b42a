"""C11: operations along the batch axis."""
import numpy as np
import tensorflow as tf
import t3f
from engine.harness import Case
from engine.sym import TT, ETT, Dense, total, ein
from checks import grid
from checks.c04 import second


def stack(x):
  d = x.dense()
  return d if x.batch is not None else d[None]


def concat(ts, how=list):
  n = sum(t.batch or 1 for t in ts)

  def spec(*xs):
    return ETT(np.concatenate([stack(x) for x in xs]), xs[0].modes, xs[0].cols, n)
  return Case('concat %s %s' % (how.__name__, ' + '.join(map(grid.label, ts))), ts,
              lambda *xs: t3f.concat_along_batch_dim(how(xs)), spec)


def scaled(t):
  def spec(x, w):
    return ETT(np.stack([d * w[k] for k, d in enumerate(x.dense())]), x.modes, x.cols, x.batch)
  return Case('multiply_along_batch ' + grid.label(t), [t, Dense('w', (t.batch,), t.dtype)],
              lambda a, w: t3f.multiply_along_batch_dim(a, w), spec)


def scaled_list(t, ws):
  def spec(x):
    return ETT(np.stack([d * ws[k] for k, d in enumerate(x.dense())]), x.modes, x.cols, x.batch)
  return Case('multiply_along_batch list %s %s' % (ws, grid.label(t)), [t],
              lambda a: t3f.multiply_along_batch_dim(a, ws), spec)


def pairwise(a, b, M=None):
  def spec(x, y, *m):
    p, q = x.dense(), y.dense()
    p, q = p.reshape(len(p), -1), q.reshape(len(q), -1)
    if m:
      return ein('pi,ij,qj->pq', p, m[0].dense(), q)
    return ein('pi,qi->pq', p, q)
  args = [a, b] + ([M] if M is not None else [])
  return Case('pairwise ' + ', '.join(map(grid.label, args)), args,
              lambda x, y, *m: t3f.pairwise_flat_inner(x, y, *m), spec)


def gram(a, M=None):
  def spec(x, *m):
    p = x.dense()
    p = p.reshape(len(p), -1)
    return ein('pi,ij,qj->pq', p, m[0].dense(), p) if m else ein('pi,qi->pq', p, p)
  args = [a] + ([M] if M is not None else [])
  return Case('gram ' + ', '.join(map(grid.label, args)), args,
              lambda x, *m: t3f.gram_matrix(x, *m) if not m else t3f.gram_matrix(x, matrix=m[0]), spec)


def column(name, modes, ranks, **kw):
  return TT(name, modes, ranks, cols=(1,) * len(modes), **kw)


def cases(tier):
  out = []
  for t in grid.both('a', tier):
    mk = lambda n, b: TT(n, t.modes, t.ranks, cols=t.cols, batch=b)
    for bs in ((1,), (2,), (1, 1), (2, 1), (1, 3), (2, 3), (1, 2, 3), (2, 1, 2, 1), (3, 3)):
      out.append(concat([mk('abcd'[k], b) for k, b in enumerate(bs)], (list, tuple)[len(bs) % 2]))
    for b in (1, 2, 3, 4):
      u = mk('a', b)
      out.append(scaled(u))
      if len(t.modes) < 4:
        out.append(gram(u))
    out.append(scaled_list(mk('a', 3), [2., -1., 0.]))
    out.append(scaled_list(mk('a', 2), [0.5, 3]))
    if len(t.modes) < 4:
      for b1, b2 in ((1, 1), (1, 3), (3, 1), (2, 3), (2, 2), (4, 2)):
        out.append(pairwise(mk('a', b1), second(t, batch=b2)))
    out.append(Case('expand ' + grid.label(t), [t], lambda a: t3f.expand_batch_dim(a),
                    lambda x: ETT(x.dense()[None], x.modes, x.cols, 1)))
    out.append(Case('expand b2 ' + grid.label(t), [mk('a', 2)], lambda a: t3f.expand_batch_dim(a),
                    lambda x: ETT(x.dense(), x.modes, x.cols, 2)))
    out.append(Case('squeeze b1 ' + grid.label(t), [mk('a', 1)], lambda a: t3f.squeeze_batch_dim(a),
                    lambda x: ETT(x.dense()[0], x.modes, x.cols, None)))
    out.append(Case('squeeze b3 ' + grid.label(t), [mk('a', 3)], lambda a: t3f.squeeze_batch_dim(a),
                    lambda x: ETT(x.dense(), x.modes, x.cols, 3)))
    out.append(Case('squeeze ' + grid.label(t), [t], lambda a: t3f.squeeze_batch_dim(a),
                    lambda x: ETT(x.dense(), x.modes, x.cols, None)))
  # through a TT matrix
  for m, n, r, r1, r2 in (((2,), (3,), (1, 1), (1, 1), (1, 1)),
                          ((2, 3), (3, 2), (1, 2, 1), (1, 2, 1), (1, 1, 1)),
                          ((2, 2), (2, 3), (1, 2, 1), (1, 1, 1), (1, 3, 1)),
                          ((1, 2, 2), (2, 1, 2), (1, 2, 1, 1), (1, 1, 2, 1), (1, 2, 1, 1)),
                          ((2, 1, 1, 2), (1, 2, 1, 2), (1, 1, 2, 2, 1), (1, 2, 1, 1, 1), (1, 1, 1, 2, 1)),
                          ((1, 2, 1, 2, 1), (1, 1, 2, 1, 2), (1, 1, 2, 1, 2, 1), (1, 1, 1, 2, 1, 1), (1, 1, 1, 1, 2, 1))):
    for b1, b2 in ((1, 1), (1, 2), (2, 1), (2, 3), (2, 2)):
      out.append(pairwise(column('a', m, r1, batch=b1), column('b', n, r2, batch=b2), TT('M', m, r, cols=n)))
    for b in (1, 2, 3):
      out.append(gram(column('a', m, r1, batch=b), TT('M', m, r, cols=m)))
  f32 = TT('a', (2, 3), (1, 2, 1), batch=2, dtype='float32')
  out += [gram(f32), scaled(f32), pairwise(f32, TT('b', (2, 3), (1, 3, 1), batch=3, dtype='float32')),
          concat([f32, TT('b', (2, 3), (1, 2, 1), batch=1, dtype='float32')])]
  w = TT('a', (3, 4), (1, 9, 1), batch=9, sparse=10)
  out += [gram(w), scaled(w), pairwise(w, TT('b', (3, 4), (1, 2, 1), batch=5, sparse=10)),
          concat([w, TT('b', (3, 4), (1, 9, 1), batch=8, sparse=5), TT('c', (3, 4), (1, 9, 1), batch=1, sparse=5)])]
  return out
