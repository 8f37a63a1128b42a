"""C07: inner products and bilinear forms."""
import numpy as np
import t3f
from t3f import ops
from engine.harness import Case
from engine.sym import TT, Dense, ein, total, prod
from checks import grid
from checks.c04 import second, out_batch, COMBOS


def items(v, n):
  """n dense elements of an argument, a single one repeated."""
  if v.batch is None:
    return [v.dense()] * n
  d = v.dense()
  return [d[i if v.batch > 1 else 0] for i in range(n)]


def scal(xs, batch):
  r = np.array(xs, dtype=object if any(not isinstance(x, float) for x in xs) else float)
  if r.dtype == object and not any(hasattr(x, 'op') for x in xs):
    r = np.array([x for x in xs])
  return r.reshape(()) if batch is None else r.reshape((batch,))


def inner(a, b):
  n = out_batch(a, b)

  def spec(x, y):
    return scal([total(p * q) for p, q in zip(items(x, n or 1), items(y, n or 1))], n)
  return Case('flat_inner %s, %s' % (grid.label(a), grid.label(b)), [a, b],
              lambda x, y: t3f.flat_inner(x, y), spec)


def vec(x, k):
  return x.reshape(-1)


def bilinear(name, A, b, c, f=None):
  f = f or (lambda A, b, c: t3f.bilinear_form(A, b, c))
  n = out_batch(b, c)

  def spec(A, x, y):
    M = A.dense()
    return scal([total(ein('i,ij->j', p.reshape(-1), M) * q.reshape(-1))
                 for p, q in zip(items(x, n or 1), items(y, n or 1))], n)
  return Case('%s %s, %s, %s' % (name, grid.label(A), grid.label(b), grid.label(c)), [A, b, c], f, spec)


def two_mat(A, B, x, y):
  n = out_batch(x, y)

  def spec(x, A, B, y):
    M = ein('ij,jk->ik', A.dense(), B.dense())
    return scal([total(ein('i,ij->j', p.reshape(-1), M) * q.reshape(-1))
                 for p, q in zip(items(x, n or 1), items(y, n or 1))], n)
  return Case('bilinear_two %s, %s, %s, %s' % tuple(map(grid.label, (x, A, B, y))), [x, A, B, y],
              lambda x, A, B, y: ops.bilinear_form_two_mat(x, A, B, y), spec)


def column(name, modes, ranks, **kw):
  """A vector as a TT matrix with one column."""
  return TT(name, modes, ranks, cols=(1,) * len(modes), **kw)


# rows, cols, ranks of A, b, c
FORMS = [
    ((2,), (3,), (1, 1), (1, 1), (1, 1)),
    ((2, 3), (3, 2), (1, 2, 1), (1, 1, 1), (1, 2, 1)),
    ((2, 2), (2, 3), (1, 2, 1), (1, 3, 1), (1, 2, 1)),
    ((1, 2, 2), (2, 1, 2), (1, 2, 1, 1), (1, 1, 2, 1), (1, 2, 1, 1)),
    ((2, 1, 1, 2), (1, 2, 1, 2), (1, 1, 2, 2, 1), (1, 2, 1, 1, 1), (1, 1, 1, 2, 1)),
    ((1, 2, 1, 2, 1), (1, 1, 2, 1, 2), (1, 1, 2, 1, 2, 1), (1, 1, 1, 2, 1, 1), (1, 1, 1, 1, 2, 1)),
]
FCOMBOS = [(None, None), (None, 2), (2, None), (2, 2), (3, 3), (1, 1), (None, 1), (1, None)]


def cases(tier):
  out = []
  for ba, bb in COMBOS:
    for a in grid.both('a', tier, batch=ba):
      if len(a.modes) < 4 or tier == 'thorough' or ba is None:
        out.append(inner(a, second(a, batch=bb)))
  for ba, bb in ((None, None), (2, None), (2, 2)):
    for t in grid.both('a', 'quick', batch=ba, dtype='float32')[3::4]:
      out.append(inner(t, second(t, batch=bb)))
  for t in grid.both('a', 'quick')[1::3] + grid.both('a', 'quick', batch=2)[1::3]:
    if len(t.modes) < 4:
      out.append(Case('flat_inner(a,a) ' + grid.label(t), [t], lambda a: t3f.flat_inner(a, a),
                      lambda x, n=t.batch: scal([total(p * p) for p in items(x, n or 1)], n)))
  for a, b in [(TT('a', (3, 4, 2), (1, 6, 4, 1), sparse=8), TT('b', (3, 4, 2), (1, 4, 6, 1), sparse=8)),
               (TT('a', (13, 11), (1, 3, 1), sparse=10), TT('b', (13, 11), (1, 2, 1), sparse=10)),
               (TT('a', (2, 3), (1, 2, 1), batch=9, sparse=12), TT('b', (2, 3), (1, 3, 1), batch=9, sparse=12)),
               (TT('a', (2,) * 8, 2, sparse=3), TT('b', (2,) * 8, 2, sparse=3))]:
    out.append(inner(a, b))
  # bilinear forms
  for m, n, rA, rb, rc in FORMS:
    for bb, bc in FCOMBOS:
      A = TT('A', m, rA, cols=n)
      out.append(bilinear('bilinear', A, column('b', m, rb, batch=bb), column('c', n, rc, batch=bc)))
  A = TT('A', (2, 2), (1, 2, 1), cols=(2, 3), dtype='float32')
  out.append(bilinear('bilinear', A, column('b', (2, 2), (1, 3, 1), dtype='float32', batch=2),
                      column('c', (2, 3), (1, 2, 1), dtype='float32')))
  for bb, bc in ((None, None), (2, 2)):
    out.append(bilinear('quadratic', TT('A', (2, 2), (1, 2, 1), cols=(2, 3)),
                        column('b', (2, 2), (1, 2, 1), batch=bb), column('c', (2, 3), (1, 1, 1), batch=bc),
                        lambda A, b, c: t3f.quadratic_form(A, b, c)))
  out.append(bilinear('bilinear', TT('A', (3, 2), (1, 8, 1), cols=(2, 9), sparse=8),
                      column('b', (3, 2), (1, 9, 1), batch=6, sparse=8),
                      column('c', (2, 9), (1, 3, 1), batch=6, sparse=8)))
  tw = [((2,), (3,), (2,), (1, 1), (1, 1)),
        ((2, 2), (2, 1), (1, 3), (1, 2, 1), (1, 1, 1)),
        ((1, 2), (2, 2), (2, 1), (1, 2, 1), (1, 2, 1)),
        ((2, 1, 1), (1, 2, 1), (1, 1, 2), (1, 2, 1, 1), (1, 1, 2, 1)),
        ((1, 1, 1, 2), (1, 2, 1, 1), (1, 1, 1, 2), (1, 1, 2, 1, 1), (1, 1, 1, 2, 1)),
        ((1, 1, 1, 2, 1), (1, 1, 1, 1, 2), (1, 1, 2, 1, 1), (1, 1, 1, 2, 1, 1), (1, 1, 1, 1, 2, 1))]
  for m, k, n, rA, rB in tw:
    for bx, by in FCOMBOS:
      out.append(two_mat(TT('A', m, rA, cols=k), TT('B', k, rB, cols=n),
                         column('x', m, 2, batch=bx), column('y', n, (1,) * (len(n) + 1), batch=by)))
  out.append(two_mat(TT('A', (2, 2), 2, cols=(2, 1), dtype='float32'), TT('B', (2, 1), 1, cols=(1, 3), dtype='float32'),
                     column('x', (2, 2), 2, batch=2, dtype='float32'), column('y', (1, 3), 2, batch=2, dtype='float32')))
  return out
