"""C14: rounding."""
import numpy as np
import t3f
from engine.harness import Case
from engine.sym import TT, ETT, prod
from checks import grid, tsvd
from checks.c12 import doubled, OVER
from checks.c13 import caps, merged


def modes_of(t):
  return list(t.modes) if t.cols is None else [a * b for a, b in zip(t.modes, t.cols)]


def result_limits(t, cap, factor=1):
  """No rank above the cap, the old rank or the unfolding sizes."""
  m = modes_of(t)
  c = caps(cap, len(m))
  return [1] + [min(c[k], factor * t.ranks[k], prod(m[:k]), prod(m[k:])) for k in range(1, len(m))] + [1]


def rank_claim(t, o, cap, factor=1):
  r = o.val().ranks
  lim = result_limits(t, cap, factor)
  return ('ranks %s within %s' % (list(r), lim), np.array([all(p <= q for p, q in zip(r, lim))]), None, 'bool')


def text(cap):
  return str(list(cap)) if np.size(cap) > 1 else str(cap)


def rnd(t, cap, kw=None):
  kw = {'max_tt_rank': cap} if kw is None else kw
  d = len(t.modes)
  exact = result_limits(t, cap) == result_limits(t, None)

  def check(S, vs, outs):
    o = outs[0]
    cl = [rank_claim(t, o, cap)]
    if exact:
      return cl
    v = o.val()
    A = vs[0].dense() if t.batch is not None else vs[0].dense()[None]
    R = v.dense() if t.batch is not None else v.dense()[None]
    r = tsvd.at_least(v.ranks, result_limits(t, cap), modes_of(t))
    en = tsvd.energies(S, r, list(range(d - 1, 0, -1)), t.batch) if S.symbolic else None
    for b in range(len(A)):
      err = tsvd.error2(R[b], A[b])
      if S.symbolic:
        cl.append(('error %d' % b, np.asarray(err), np.asarray(en[b], dtype=object)))
      else:
        x = merged(A[b], t.modes, t.cols)
        es = [tsvd.numeric_energy(x, r, q) for q in ('left', 'right')]
        cl.append(('error %d' % b, np.asarray(err), np.asarray(min(es, key=lambda e: abs(e - err)))))
    return cl
  name = 'round %s cap %s%s' % (grid.label(t), text(cap), '' if kw.get('max_tt_rank', 0) is cap else ' default')
  return Case(name, [t], lambda a: t3f.round(a, **kw),
              lambda x: ETT(x.dense() if exact else None, x.modes, x.cols, x.batch), check=check, meta=True)


def low(t, cap):
  """a + a with doubled ranks, cap not below the ranks of a: exact."""
  d = len(t.modes)

  def extra(S, vs, outs):
    return tsvd.zero_tail(S, t.ranks, list(range(d - 1, 0, -1)), t.batch)
  return Case('round doubled %s cap %s' % (grid.label(t), text(cap)), [t],
              lambda a: t3f.round(doubled(a), max_tt_rank=cap),
              lambda x: ETT(2 * x.dense(), x.modes, x.cols, x.batch), extra=extra,
              check=lambda S, vs, outs: [rank_claim(t, outs[0], cap, 2)])


def cases(tier):
  out = []
  ts = [TT('a', (3,), (1, 1)), TT('a', (2, 3), (1, 2, 1)), TT('a', (3, 2), (1, 1, 1)), TT('a', (2, 2, 2), (1, 2, 2, 1)),
        TT('a', (1, 3, 2), (1, 1, 2, 1)), TT('a', (3, 1, 2), (1, 3, 2, 1)), TT('a', (2, 3, 2), (1, 2, 2, 1)),
        TT('a', (2,), (1, 1), cols=(3,)), TT('a', (2, 1), (1, 2, 1), cols=(1, 2)), TT('a', (1, 2), (1, 3, 1), cols=(3, 1)),
        TT('a', (2, 1, 2), (1, 2, 2, 1), cols=(1, 2, 1))]
  ts += [TT('a', (2, 1, 2, 1), (1, 2, 2, 1, 1)), TT('a', (1, 2, 1, 2, 1), (1, 1, 2, 2, 1, 1)),
         TT('a', (2, 1, 1, 2), (1, 2, 1, 2, 1), cols=(1, 1, 2, 1))]
  ts += [TT('a', m, r) for m, r in OVER]
  if tier == 'thorough':
    ts += [TT('a', (3, 3), (1, 3, 1)), TT('a', (2, 3, 2), (1, 2, 3, 1)), TT('a', (2, 2, 2, 2), (1, 2, 2, 2, 1)),
           TT('a', (2, 2), (1, 2, 1), cols=(2, 2))]
  bt = [TT('a', t.modes, t.ranks, cols=t.cols, batch=b) for t in ts[:9] + ts[11:14] for b in (1, 2)]
  bt += [TT('a', m, r, batch=2) for m, r in OVER[:3]] + [TT('a', (2, 3), (1, 2, 1), batch=3)]
  for i, t in enumerate(ts + bt):
    d = len(t.modes)
    for cap in (None, np.inf, 1, 2, 10):
      if cap in (np.inf, 10) and t.batch and i % 2:
        continue
      out.append(rnd(t, cap))
    if i % 3 == 0:
      out.append(rnd(t, None, {}))
    if d > 1:
      out.append(rnd(t, [1] + [2, 1, 2, 1][:d - 1] + [1]))
      out.append(rnd(t, [1] + [1, 2, 1, 2][:d - 1] + [1]))
      out.append(rnd(t, np.array([4] + [9, 2, 3, 4][:d - 1] + [7])))
  lo = [TT('a', (3, 2), (1, 1, 1)), TT('a', (3, 3), (1, 2, 1)), TT('a', (2, 2, 2), (1, 1, 1, 1)),
        TT('a', (2, 2, 2), (1, 2, 1, 1)), TT('a', (2, 2, 2), (1, 1, 2, 1)), TT('a', (2, 1), (1, 1, 1), cols=(1, 2)),
        TT('a', (3, 2), (1, 1, 1), batch=2), TT('a', (2, 2, 2), (1, 1, 1, 1), batch=2), TT('a', (2, 1), (1, 1, 1), cols=(1, 2), batch=1)]
  for t in lo:
    out += [low(t, max(t.ranks)), low(t, list(t.ranks))]
  out += [rnd(TT('a', (2, 3), (1, 2, 1), dtype='float32'), c) for c in (1, None)]
  out += [rnd(TT('a', (2, 3), (1, 2, 1), dtype='float32', batch=2), c) for c in (1, None)]
  for u in ('n', 'r', 'nr'):
    out += [rnd(TT('a', (2, 2, 2), (1, 2, 2, 1), unknown=u), c) for c in (None, 1, 2, [1, 1, 2, 1], [1, 2, 1, 1], [2, 3, 1, 5])]
  for u in ('b', 'r', 'rb'):
    out += [rnd(TT('a', (2, 3), (1, 2, 1), batch=2, unknown=u), c) for c in (None, 1, 2, [1, 1, 2], [2, 2, 1])]
  return out
