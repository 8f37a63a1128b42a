"""C02: dense conversion."""
import t3f
from engine.harness import Case
from engine.sym import TT
from checks import grid


def cases(tier):
  ts = grid.both('a', tier)
  for b in (1, 2, 3):
    ts += grid.both('a', tier, batch=b)
  ts += grid.both('a', tier, dtype='float32')[3:6]
  ts += [TT('a', (2, 3), (1, 2, 1), batch=4, dtype='float32'),
         TT('a', (2,) * 6, 2), TT('a', (2, 1, 2, 3, 1, 2), (1, 2, 3, 1, 2, 2, 1)),
         TT('a', (2, 1, 2, 1, 2), 2, cols=(1, 2, 2, 2, 1))]
  # large ranks, modes and batches with a few symbols per core
  ts += [TT('a', (3, 4, 3), (1, 17, 12, 1), sparse=12),
         TT('a', (11, 13), (1, 9, 1), sparse=12),
         TT('a', (17, 3, 2), (1, 2, 2, 1), sparse=12),
         TT('a', (2, 3, 2), (1, 2, 3, 1), batch=9, sparse=16),
         TT('a', (2, 2), (1, 10, 1), cols=(3, 2), batch=5, sparse=16),
         TT('a', (2,) * 9, 2, sparse=3)]
  # modes of size 1 in different places
  for b in (None, 2):
    for rows, cols in (((2, 3), (3, 1)), ((2, 3), (1, 3)), ((3, 1), (2, 3)), ((1, 3), (2, 3)), ((2, 1, 3), (2, 3, 1)),
                       ((2, 3, 2), (2, 1, 1)), ((2, 3, 2), (1, 1, 2)), ((1, 1, 2), (2, 3, 2)), ((2, 1, 1), (2, 3, 2)),
                       ((2, 3, 1), (1, 3, 2)), ((1, 4), (4, 1)), ((4, 1), (1, 4))):
      ts.append(TT('a', rows, 2, cols=cols, batch=b))
  # sizes unknown when the graph is built
  for u in ('n', 'r', 'nr'):
    ts += [TT('a', (2, 3, 2), (1, 2, 3, 1), unknown=u),
           TT('a', (2, 3), (1, 2, 1), batch=2, unknown=u + 'b')]
  ts += [TT('a', (2, 3), (1, 2, 1), batch=2, unknown='b'),
         TT('a', (2, 3), (1, 2, 1), cols=(2, 2), batch=3, unknown='b'),
         TT('a', (2, 3), (1, 2, 1), cols=(2, 2), unknown='r')]
  return [Case('full ' + grid.label(t), [t], lambda a: t3f.full(a), lambda a: a.dense())
          for t in ts]
