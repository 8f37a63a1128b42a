"""C22: core renormalisation and casting."""
from fractions import Fraction
import numpy as np
import tensorflow as tf
import t3f
from engine import contracts
from engine import terms as T
from engine.harness import Case
from engine.sym import TT, ETT, Dense, norm2, like
from checks import grid
from checks.grid import label


def squares(v):
  """Squared norms of cores, one row per batch element."""
  es = [v] if v.batch is None else [v.elem(b) for b in range(v.batch)]
  return [[norm2(c)[()] for c in e.cores] for e in es]


def renormalize(t, eps=None, large=False):
  e = 1e-8 if eps is None else eps
  prog = (lambda a: t3f.renormalize_tt_cores(a)) if eps is None else (lambda a: t3f.renormalize_tt_cores(a, eps))

  def check(S, vs, outs):
    out = []
    if S.symbolic:
      # no denominator can vanish
      out.append(('denominators', np.array([T.not_(T.eq(x, 0)) for x in dict.fromkeys(S.ctx.divisors)], dtype=object),
                  True, 'bool'))
    if large:
      for b, row in enumerate(squares(outs[0].val())):
        for k in range(1, len(row)):
          out.append(('norm of core %d of %d' % (k, b), np.array(row[k]), np.array(row[0])))
    return out

  def assume(v):
    lim = Fraction(repr(e)) * Fraction(1001, 1000)
    return [T.le(lim, x) for row in squares(v) for x in row] if large else []
  return Case('renormalize %s%s%s' % (label(t), '' if eps is None else ' eps %g' % eps, ' norms' if large else ''), [t], prog,
              lambda v: like(None if large else v.dense(), v), check=check, assume=assume, timeout=60)


class Zeroed(TT):
  """Some cores are exactly zero."""

  def symbols(self):
    return [np.zeros(a.shape, dtype=int).astype(object) if k in self.which else a
            for k, a in enumerate(TT.symbols(self))]


def zeroed(t, which):
  """Cores that are exactly zero keep the object zero."""
  z = Zeroed('a', t.modes, t.ranks, cols=t.cols, batch=t.batch, dtype=t.dtype)
  z.which = which
  c = renormalize(z)
  c.name += ' zero cores %s' % list(which)
  return c


def cast(t, to, how='cast'):
  f = lambda a: t3f.cast(a, getattr(tf, to))

  def spec(v):
    return ETT(v.dense(), v.modes, v.cols, v.batch, dtype=to, ranks=t.ranks)
  c = Case('cast %s to %s' % (label(t), to), [t], f, spec, tol=1e-4, wide=False)
  return c


def cast_ints(t, to):
  """Whole numbers stay exact in every type."""
  rnd = np.random.RandomState(len(t.modes))
  t = TT(t.name, t.modes, t.ranks, cols=t.cols, batch=t.batch, dtype=t.dtype,
         value=[rnd.randint(-3, 4, s) for s in t.shapes()])
  c = cast(t, to)
  c.name = 'cast whole numbers ' + c.name
  return c


def cases(tier):
  out = []
  more = tier == 'thorough'
  shapes = [((3,), (1, 1)), ((2, 3), (1, 2, 1)), ((1, 2), (1, 1, 1)), ((2, 1, 2), (1, 2, 2, 1)), ((2, 2, 2), (1, 2, 3, 1)),
            ((2, 1, 2, 1), (1, 2, 1, 2, 1)), ((1, 2, 1, 2, 1), (1, 1, 2, 1, 2, 1))]
  mats = [((2,), (2,), (1, 1)), ((2, 1), (1, 3), (1, 2, 1)), ((1, 2, 2), (2, 1, 1), (1, 2, 2, 1)), ((1, 2, 1, 2), (1, 1, 2, 1), (1, 1, 2, 1, 1))]
  if more:
    shapes += [((4, 3), (1, 3, 1)), ((2, 2, 2, 2), (1, 2, 2, 2, 1)), ((2,) * 5, 1), ((3, 3, 2), (1, 3, 2, 1))]
    mats += [((2, 2), (2, 2), (1, 3, 1)), ((1, 2, 1, 2), (2, 1, 1, 1), (1, 2, 1, 2, 1))]
  for b in (None, 1, 2, 3):
    ts = [TT('a', m, r, batch=b) for m, r in shapes] + [TT('a', m, r, cols=c, batch=b) for m, c, r in mats]
    for t in ts:
      if b == 3 and len(t.modes) > 2 or b == 2 and len(t.modes) > 4:
        continue
      out += [renormalize(t), renormalize(t, large=True)]
      for k in range(len(t.modes)):
        out.append(zeroed(t, (k,)))
      if len(t.modes) > 1:
        out.append(zeroed(t, tuple(range(len(t.modes)))))
      if len(t.modes) < 4:
        out += [renormalize(t, 1e-3), renormalize(t, 4.0, True)]
    for t in (TT('a', (2, 3), (1, 2, 1), batch=b, dtype='float32'), TT('a', (2, 2), (1, 2, 1), cols=(1, 2), batch=b, dtype='float32')):
      out += [renormalize(t), renormalize(t, large=True), zeroed(t, (0,))]
  for b in (None, 1, 3):
    for frm in ('float64', 'float32'):
      for to in ('float32', 'float64'):
        for t in grid.both('a', tier, batch=b, dtype=frm):
          if frm == 'float64' and to == 'float32':
            out.append(cast_ints(t, to))
          else:
            out.append(cast(t, to))
      for t in grid.both('a', 'quick', batch=b, dtype=frm)[1::2]:
        out += [cast_ints(t, 'int32'), cast_ints(t, 'int64')]
  for name, v in (('a number', 3), ('a list', [1, 2]), ('an array', np.zeros((2, 3)))):
    out.append(Case('cast rejects ' + name, [], lambda v=v: t3f.cast(v, tf.float32), raises=True))
  return out
