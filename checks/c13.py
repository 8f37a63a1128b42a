"""C13: TT decomposition of dense arrays."""
import numpy as np
import tensorflow as tf
import t3f
from engine.harness import Case
from engine.sym import TT, ETT, Dense, prod
from checks import grid, tsvd


def caps(cap, d):
  if cap is None or np.size(cap) == 1:
    return [10 ** 9 if cap is None or cap == np.inf else int(cap)] * (d + 1)
  return list(cap)


def limits(modes, cap):
  d = len(modes)
  c = caps(cap, d)
  return [1] + [min(c[k], prod(modes[:k]), prod(modes[k:])) for k in range(1, d)] + [1]


def rank_claim(o, modes, cap):
  """modes: sizes of the merged modes."""
  lim = limits(modes, cap)
  r = o.val().ranks
  return ('ranks %s within %s' % (list(r), lim), np.array([all(p <= q for p, q in zip(r, lim))]), None, 'bool')


def merged(x, rows, cols):
  """Matrix as the array over merged modes (i_k, j_k)."""
  if cols is None:
    return x
  d = len(rows)
  x = x.reshape(tuple(rows) + tuple(cols))
  x = np.transpose(x, [q for k in range(d) for q in (k, d + k)])
  return x.reshape([a * b for a, b in zip(rows, cols)])


def call(x, rows, cols, kw, vec=None):
  if cols is None:
    return t3f.to_tt_tensor(x, **kw)
  shape = (list(rows), list(cols))
  if vec == 'row':
    shape = (None, list(cols))
  elif vec == 'col':
    shape = (list(rows), None)
  return t3f.to_tt_matrix(x, shape, **kw)


def dense(rows, cols, cap, kw=None, vec=None, unknown=(), dtype='float64'):
  """Any array: error equals the dropped energy (exact if nothing drops)."""
  kw = {'max_tt_rank': cap} if kw is None else kw
  shape = tuple(rows) if cols is None else (prod(rows), prod(cols))
  modes = list(rows) if cols is None else [a * b for a, b in zip(rows, cols)]
  d = len(modes)
  exact = limits(modes, cap) == limits(modes, None)

  def check(S, vs, outs):
    o = outs[0]
    cl = [rank_claim(o, modes, cap)]
    if not exact:
      r = tsvd.at_least(o.val().ranks, limits(modes, cap), modes)
      err = tsvd.error2(o.dense(), vs[0])
      if S.symbolic:
        en = tsvd.energies(S, r, list(range(1, d)))[0]
        cl.append(('error', np.asarray(err), np.asarray(en, dtype=object)))
      else:
        x = merged(vs[0], rows, cols)
        es = [tsvd.numeric_energy(x, r, q) for q in ('left', 'right')]
        cl.append(('error', np.asarray(err), np.asarray(min(es, key=lambda e: abs(e - err)))))
    return cl
  name = 'dense %s%s cap %s%s%s' % ('x'.join(map(str, rows)), '' if cols is None else '|' + 'x'.join(map(str, cols)),
                                    cap, ' ' + vec if vec else '', ' ?%s' % (unknown,) if unknown else '')
  if dtype != 'float64':
    name += ' f32'
  if 'max_tt_rank' not in kw:
    name += ' default'
  return Case(name, [Dense('x', shape, dtype, unknown=unknown)],
              lambda x: call(x, rows, cols, kw, vec),
              lambda x: ETT(x if exact else None, rows, cols), check=check)


def array_of(cores, cols):
  """Dense array from cores with plain tensor operations."""
  x = cores[0]
  for c in cores[1:]:
    x = tf.tensordot(x, c, axes=1)
  x = tf.squeeze(x, [0, len(x.shape) - 1])
  if cols is not None:
    d = len(cores)
    x = tf.transpose(x, list(range(0, 2 * d, 2)) + list(range(1, 2 * d, 2)))
    s = x.shape.as_list()
    x = tf.reshape(x, (prod(s[:d]), prod(s[d:])))
  return x


def lowrank(t, cap):
  """Array of known low ranks, cap not below them: exact."""
  modes = list(t.modes) if t.cols is None else [a * b for a, b in zip(t.modes, t.cols)]
  d = len(modes)

  def check(S, vs, outs):
    return [rank_claim(outs[0], modes, cap)]

  def extra(S, vs, outs):
    return tsvd.zero_tail(S, t.ranks, list(range(1, d)))
  return Case('low rank %s cap %s' % (grid.label(t), cap), [t],
              lambda a: call(array_of(a.tt_cores, t.cols), t.modes, t.cols, {'max_tt_rank': cap}),
              lambda x: ETT(x.dense(), x.modes, x.cols), check=check, extra=extra)


def cases(tier):
  out = []
  shapes = [((3,), None), ((2, 3), None), ((3, 2), None), ((2, 2, 2), None), ((1, 3, 2), None), ((2, 1, 3), None),
            ((2,), (3,)), ((2, 1), (1, 2)), ((1, 2), (3, 1)), ((2, 1, 2), (1, 2, 1))]
  if tier == 'thorough':
    shapes += [((4, 3), None), ((2, 3, 2), None), ((3, 2, 2), None), ((2, 2), (2, 1)), ((2, 2, 1, 2), None), ((2, 1, 2, 2), None)]
  for rows, cols in shapes:
    d = len(rows)
    for cap in (None, np.inf, 10, 1, 2, 3):
      out.append(dense(rows, cols, cap))
    out.append(dense(rows, cols, 10, kw={}))
    if d > 1:
      out.append(dense(rows, cols, [1] + [2, 1, 2][:d - 1] + [1]))
      out.append(dense(rows, cols, [1] + [1, 2, 1][:d - 1] + [1]))
      out.append(dense(rows, cols, [5] + [7, 2, 9][:d - 1] + [6]))
      out.append(dense(rows, cols, np.array([1] + [2] * (d - 1) + [1])))
  out += [dense((2, 2, 2, 2), None, c) for c in (1, None)]
  for rows, cols in (((2, 1, 2, 1), None), ((1, 2, 1, 2, 1), None), ((2, 1, 1, 2), (1, 1, 2, 1)), ((1, 2, 1, 1, 2), (1, 1, 2, 1, 1))):
    out += [dense(rows, cols, c) for c in (None, 1, 2, [1, 2, 1, 2, 1, 1][:len(rows)] + [1], [1, 1, 2, 1, 2, 1][:len(rows)] + [1])]
  out += [dense((2, 3), None, c, dtype='float32') for c in (1, 5)]
  for vec, rows, cols in (('col', (2, 3), (1, 1)), ('col', (2, 1, 2), (1, 1, 1)), ('row', (1, 1), (3, 2)),
                          ('col', (3,), (1,)), ('row', (1, 1, 1), (2, 2, 1))):
    out += [dense(rows, cols, c, vec=vec) for c in (None, 1, 3)]
  for rows, unk in (((2, 3), (0,)), ((2, 3), (1,)), ((2, 3), (0, 1)), ((2, 2, 2), (0,)), ((2, 2, 2), (1, 2)),
                    ((2, 2, 2), (0, 1, 2)), ((3,), (0,))):
    out += [dense(rows, None, c, unknown=unk) for c in (None, 1, 2) + (([1, 2, 1, 1], [1, 1, 2, 1], [1, 2, 3, 1]) if len(rows) == 3 else ())]
  low = [TT('a', (3, 3), (1, 1, 1)), TT('a', (3, 3), (1, 2, 1)), TT('a', (2, 3, 2), (1, 1, 2, 1)),
         TT('a', (2, 3, 2), (1, 2, 1, 1)), TT('a', (2, 2, 2), (1, 1, 1, 1)), TT('a', (2, 1), (1, 1, 1), cols=(1, 2)),
         TT('a', (2, 1), (1, 1, 1), cols=(2, 3)), TT('a', (2, 2), (1, 2, 1), cols=(2, 2)), TT('a', (2, 1, 2), (1, 1, 1, 1), cols=(1, 2, 1))]
  for t in low:
    out.append(lowrank(t, max(t.ranks)))
    out.append(lowrank(t, list(t.ranks)))
    out.append(lowrank(t, max(t.ranks) + 1))
  return out
