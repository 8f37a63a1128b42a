"""C15: approximate sums whose rank cap is large enough."""
import numpy as np
import t3f
from t3f import approximate
from engine.harness import Case
from engine.sym import TT, ETT, Dense
from checks import grid


def add_n(ts, cap, how=list):
  def spec(*xs):
    r = xs[0].dense()
    for x in xs[1:]:
      r = r + x.dense()
    return ETT(r, xs[0].modes, xs[0].cols, xs[0].batch)
  return Case('add_n %s %s cap %s' % (how.__name__, ' + '.join(map(grid.label, ts)), cap), ts,
              lambda *xs: approximate.add_n(how(xs), cap), spec)


def reduce(t, cap, weights=None):
  """weights: None, 'vector' or a number of columns."""
  args = [t]
  if weights == 'vector':
    args.append(Dense('w', (t.batch,), t.dtype))
  elif weights is not None:
    args.append(Dense('w', (t.batch, weights), t.dtype))

  def spec(x, *w):
    d = x.dense()
    cols = [[1] * t.batch] if not w else [w[0]] if w[0].ndim == 1 else list(w[0].T)
    res = []
    for c in cols:
      r = d[0] * c[0]
      for k in range(1, t.batch):
        r = r + d[k] * c[k]
      res.append(r)
    if w and w[0].ndim == 2:
      return ETT(np.stack(res), x.modes, x.cols, weights)
    return ETT(res[0], x.modes, x.cols)

  def prog(a, *w):
    return approximate.reduce_sum_batch(a, cap, *w)
  return Case('reduce_sum_batch %s cap %s weights %s' % (grid.label(t), cap, weights), args, prog, spec)


def cases(tier):
  out = []
  names = 'abcdef'
  for n in range(1, 7):
    for m, cols in (((3,), None), ((2,), (2,))):
      out.append(add_n([TT(names[k], m, (1, 1), cols=cols) for k in range(n)], 10, (list, tuple)[n % 2]))
    for m, cols, r in (((2, 2), None, (1, 1, 1)), ((2, 1), (1, 2), (1, 1, 1))):
      if n <= (6 if tier == 'thorough' else 4) or cols is None:
        out.append(add_n([TT(names[k], m, r, cols=cols) for k in range(n)], 6))
    for b in (1, 2):
      if n <= 4:
        out.append(add_n([TT(names[k], (2, 2), (1, 1, 1), batch=b) for k in range(n)], 6))
  out += [add_n([TT('a', (2, 2), (1, 2, 1)), TT('b', (2, 2), (1, 1, 1)), TT('c', (2, 2), (1, 2, 1))], 5),
          add_n([TT('a', (2, 2, 2), (1, 1, 2, 1)), TT('b', (2, 2, 2), (1, 1, 1, 1))], 4),
          add_n([TT('a', (2, 2, 2), (1, 1, 1, 1)), TT('b', (2, 2, 2), (1, 1, 1, 1)), TT('c', (2, 2, 2), (1, 1, 1, 1))], 4),
          add_n([TT('a', (2, 1, 2, 1), (1, 1, 2, 1, 1)), TT('b', (2, 1, 2, 1), 1)], 4),
          add_n([TT('a', (1, 2, 1, 1, 2), 1), TT('b', (1, 2, 1, 1, 2), 1), TT('c', (1, 2, 1, 1, 2), 1)], 4),
          add_n([TT(n, (1, 2, 1, 2), 1, cols=(1, 1, 2, 1)) for n in 'ab'], 4),
          add_n([TT('a', (2, 2), (1, 1, 1), dtype='float32'), TT('b', (2, 2), (1, 1, 1), dtype='float32')], 4)]
  for b in range(1, 7):
    for m, cols in (((3,), None), ((2,), (2,))):
      for w in (None, 'vector', 1, 2, 3):
        out.append(reduce(TT('a', m, (1, 1), cols=cols, batch=b), 5, w))
    for m, cols, r in (((2, 2), None, (1, 1, 1)), ((2, 1), (1, 2), (1, 1, 1)), ((2, 2), None, (1, 2, 1))):
      for w in (None, 'vector', 1, 2):
        if (b <= 4 and (w != 2 or b <= 3)) or tier == 'thorough':
          out.append(reduce(TT('a', m, r, cols=cols, batch=b), 6, w))
  for b in (2, 3):
    for w in (None, 'vector', 2):
      out.append(reduce(TT('a', (2, 2, 2), (1, 1, 1, 1), batch=b), 4, w))
  for w in (None, 'vector'):
    out += [reduce(TT('a', (2, 1, 2, 1), 1, batch=2), 4, w), reduce(TT('a', (1, 2, 1, 1, 2), 1, batch=3), 4, w)]
  out.append(reduce(TT('a', (2, 2), (1, 1, 1), batch=2, dtype='float32'), 4, 'vector'))
  return out
