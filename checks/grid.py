"""Configurations shared by the checks."""
from engine.sym import TT, Dense

# (modes, ranks); unequal, unit modes and unit ranks on purpose
TENSORS = [
    ((3,), (1, 1)),
    ((2, 3), (1, 2, 1)),
    ((3, 2), (1, 1, 1)),
    ((2, 3, 2), (1, 2, 3, 1)),
    ((1, 3, 2), (1, 1, 2, 1)),
    ((3, 1, 2), (1, 3, 2, 1)),
    ((2, 2, 3, 2), (1, 2, 3, 2, 1)),
    ((2, 1, 2, 1, 3), (1, 2, 1, 2, 3, 1)),
]
TENSORS_MORE = [
    ((1,), (1, 1)),
    ((4, 3), (1, 3, 1)),
    ((2, 4, 3), (1, 2, 2, 1)),
    ((3, 3, 3), (1, 3, 3, 1)),
    ((2, 1, 2, 3), (1, 2, 1, 2, 1)),
    ((2, 2, 2, 2, 2), (1, 2, 2, 2, 2, 1)),
    ((2, 3, 1, 2, 2), (1, 2, 3, 2, 1, 1)),
]
# (rows, cols, ranks)
MATRICES = [
    ((2,), (3,), (1, 1)),
    ((2, 3), (3, 2), (1, 2, 1)),
    ((1, 2), (2, 1), (1, 3, 1)),
    ((2, 2, 1), (1, 2, 3), (1, 2, 2, 1)),
    ((2, 1, 1, 2), (1, 2, 2, 1), (1, 2, 1, 2, 1)),
    ((1, 2, 1, 2, 1), (2, 1, 2, 1, 1), (1, 2, 2, 1, 2, 1)),
]
MATRICES_MORE = [
    ((3, 2), (2, 4), (1, 1, 1)),
    ((2, 1, 2), (2, 3, 1), (1, 2, 3, 1)),
    ((2, 2, 2, 1), (1, 2, 1, 2), (1, 2, 1, 2, 1)),
]


def label(t):
  s = 'x'.join(map(str, t.modes))
  if t.cols is not None:
    s += '|' + 'x'.join(map(str, t.cols))
  s += ' r' + '.'.join(map(str, t.ranks[1:-1]))
  if t.batch is not None:
    s += ' b%d' % t.batch
  if t.dtype != 'float64':
    s += ' f32'
  if t.unknown:
    s += ' ?' + t.unknown
  if t.sparse is not None:
    s += ' wide'
  return s


def tensors(name, tier, more=None, **kw):
  g = list(TENSORS)
  if (tier == 'thorough') if more is None else more:
    g += TENSORS_MORE
  return [TT(name, m, r, **kw) for m, r in g]


def matrices(name, tier, more=None, **kw):
  g = list(MATRICES)
  if (tier == 'thorough') if more is None else more:
    g += MATRICES_MORE
  return [TT(name, m, r, cols=c, **kw) for m, c, r in g]


def both(name, tier, **kw):
  return tensors(name, tier, **kw) + matrices(name, tier, **kw)
