"""C08: Frobenius norms."""
from fractions import Fraction
import numpy as np
import t3f
from engine import terms as T
from engine.harness import Case
from engine.sym import TT, norm2
from checks import grid


def sq(x):
  if x.batch is None:
    return np.asarray(norm2(x.dense()))
  return np.array([np.asarray(norm2(d))[()] for d in x.dense()])


def squared(t, diff):
  return Case('norm squared %s%s' % ('diff ' if diff else '', grid.label(t)), [t],
              lambda a: t3f.frobenius_norm_squared(a, differentiable=diff), sq)


def norm(t, diff, eps):
  kw = {} if eps is None else {'epsilon': eps}
  e = 1e-5 if eps is None else eps

  def check(S, vs, outs):
    o = np.asarray(outs[0])
    ref = sq(vs[0])
    if S.symbolic:
      ref = ref + (Fraction(repr(e)) if e else 0)
      pos = np.array([T.le(0, x) for x in o.reshape(-1)], dtype=object)
    else:
      ref = ref + e
      pos = o >= 0
    return [('norm^2', o * o, np.asarray(ref).reshape(o.shape)), ('norm >= 0', pos, None, 'bool')]
  return Case('norm %seps=%s %s' % ('diff ' if diff else '', eps, grid.label(t)), [t],
              lambda a: t3f.frobenius_norm(a, differentiable=diff, **kw), check=check,
              spec=lambda x: [None])


def cases(tier):
  out = []
  ts = grid.both('a', tier)
  for b in (1, 2, 3):
    ts += grid.both('a', tier, batch=b)
  ts += grid.both('a', 'quick', dtype='float32')[3::4] + grid.both('a', 'quick', dtype='float32', batch=2)[3::4]
  # ranks larger than the unfoldings allow
  over = [((2, 2), (1, 3, 1)), ((2, 2, 2), (1, 3, 4, 1)), ((1, 3, 1), (1, 2, 2, 1))]
  ts += [TT('a', m, r) for m, r in over] + [TT('a', m, r, batch=2) for m, r in over[:2]]
  ts += [TT('a', (1, 2), (1, 3, 1), cols=(1, 2))]
  for i, t in enumerate(ts):
    out += [squared(t, True), squared(t, False)]
    out.append(norm(t, bool(i % 2), (None, 0.01, 0., 1.)[i % 4]))
    out.append(norm(t, not i % 2, (None, 0.25, 1e-3)[i % 3]))
  for t in (TT('a', (9, 2), (1, 2, 1), sparse=8), TT('a', (2, 2, 2, 2, 2, 2), 2, sparse=4),
            TT('a', (2, 3), (1, 2, 1), batch=7, sparse=8), TT('a', (3, 3), (1, 9, 1), sparse=6)):
    out.append(squared(t, True))
  out += [squared(TT('a', (5, 4), (1, 2, 1)), False), squared(TT('a', (2, 2, 2), (1, 2, 2, 1), batch=4), False)]
  return out
