"""C04: addition, subtraction, negation."""
import t3f
from engine.harness import Case
from engine.sym import TT, ETT
from checks import grid

OPS = {
    'add': (lambda a, b: t3f.add(a, b), lambda x, y: x + y),
    '+': (lambda a, b: a + b, lambda x, y: x + y),
    '-': (lambda a, b: a - b, lambda x, y: x - y),
}


def out_batch(a, b):
  if a.batch is None and b.batch is None:
    return None
  return max(a.batch or 1, b.batch or 1)


def pair(name, op, a, b, **kw):
  f, g = OPS[op]
  return Case('%s %s, %s' % (op, grid.label(a), grid.label(b)), [a, b], f,
              lambda x, y: ETT(g(x.dense(), y.dense()), x.modes, x.cols, out_batch(a, b)), **kw)


def ranks2(r):
  """Different inner ranks for the second operand."""
  return (1,) + tuple((2, 1, 3, 2)[(k + r[k + 1]) % 4] for k in range(len(r) - 2)) + (1,)


def second(t, **kw):
  d = dict(cols=t.cols, dtype=t.dtype, batch=t.batch)
  d.update(kw)
  return TT('b', t.modes, ranks2(t.ranks), **d)


COMBOS = [(None, None), (None, 2), (2, None), (1, 3), (3, 1), (2, 2), (None, 1), (1, None), (1, 1)]


def cases(tier):
  out = []
  for ba, bb in COMBOS:
    for a in grid.both('a', tier, batch=ba):
      b = second(a, batch=bb)
      out.append(pair('', 'add', a, b))
      if (ba, bb) in ((None, None), (2, None), (1, 3), (2, 2)) or tier == 'thorough':
        out.append(pair('', '-', a, b))
  for a in grid.both('a', tier)[1:] + grid.both('a', tier, batch=2)[1:]:
    out.append(pair('', '+', a, second(a)))
  for ba, bb in ((None, None), (2, None), (2, 2)):
    for t in grid.both('a', 'quick', batch=ba, dtype='float32')[3::3]:
      out.append(pair('', 'add', t, second(t, batch=bb)))
      out.append(pair('', '-', t, second(t, batch=bb)))
  # the same object on both sides
  for t in grid.both('a', 'quick')[1::3] + grid.both('a', 'quick', batch=2)[1::3]:
    out.append(Case('a+a ' + grid.label(t), [t], lambda a: [a + a, a - a],
                    lambda x: [ETT(x.dense() * 2, x.modes, x.cols, x.batch),
                               ETT(x.dense() * 0, x.modes, x.cols, x.batch)]))
  for t in grid.both('a', tier) + grid.both('a', tier, batch=2) + grid.both('a', 'quick', batch=1)[2::2] + \
      grid.both('a', 'quick', dtype='float32')[2::3]:
    out.append(Case('neg ' + grid.label(t), [t], lambda a: -a,
                    lambda x: ETT(x.dense() * -1, x.modes, x.cols, x.batch)))
  # chains of operations, more cores
  t = [TT(n, (2, 3, 2), r) for n, r in zip('abc', ((1, 2, 2, 1), (1, 1, 3, 1), (1, 2, 1, 1)))]
  out.append(Case('a+b-c', t, lambda a, b, c: a + b - c,
                  lambda a, b, c: ETT(a.dense() + b.dense() - c.dense(), a.modes)))
  out.append(Case('a-(b-c)', t, lambda a, b, c: a - (b - c),
                  lambda a, b, c: ETT(a.dense() - b.dense() + c.dense(), a.modes)))
  five = TT('a', (2, 1, 2, 3, 2), (1, 2, 1, 2, 2, 1))
  out += [pair('', 'add', five, second(five)), pair('', '-', five, second(five, batch=3))]
  # large ranks, modes, batches
  for a, b in [(TT('a', (3, 4, 2), (1, 12, 9, 1), sparse=10), TT('b', (3, 4, 2), (1, 2, 17, 1), sparse=10)),
               (TT('a', (13, 11), (1, 3, 1), sparse=10), TT('b', (13, 11), (1, 2, 1), sparse=10)),
               (TT('a', (2, 3), (1, 2, 1), batch=9, sparse=12), TT('b', (2, 3), (1, 3, 1), batch=9, sparse=12)),
               (TT('a', (2, 3), (1, 2, 1), batch=7, sparse=12), TT('b', (2, 3), (1, 3, 1))),
               (TT('a', (2, 2), (1, 9, 1), cols=(3, 10), sparse=10), TT('b', (2, 2), (1, 11, 1), cols=(3, 10), sparse=10)),
               (TT('a', (2,) * 8, 2, sparse=3), TT('b', (2,) * 8, 1, sparse=3))]:
    out += [pair('', 'add', a, b), pair('', '-', a, b)]
  return out
