"""Counterexamples among inputs whose unfoldings have at most one nonzero entry
in each row and column. The factors of such matrices are known, so that the
solver faces polynomials in the remaining entries only."""
from fractions import Fraction
import numpy as np

from engine import decide, sym
from engine import terms as T
from engine.terms import Term
from engine.z3conv import Conv


def pattern(a, arrays):
  """Entries of one argument that are set to zero."""
  zero = {}
  if isinstance(a, sym.TT):
    lead = 0 if a.batch is None else 1
    for c, x in enumerate(arrays):
      for i in np.ndindex(*x.shape):
        if not isinstance(x[i], Term):
          continue
        l, r, mode = i[lead], i[-1], i[lead + 1:-1]
        m = mode[0] if len(mode) == 1 else mode[0] * x.shape[lead + 2] + mode[1]
        keep = (c == 0 or m == l) and (c == len(arrays) - 1 or m == r)
        if not keep:
          zero[x[i]] = 0
  elif isinstance(a, sym.Dense) and not a.is_int:
    x = arrays[0]
    for i in np.ndindex(*x.shape):
      if isinstance(x[i], Term) and len(set(i)) > 1:
        zero[x[i]] = 0
  return zero


def _unit(n, i):
  return [1 if k == i else 0 for k in range(n)]


def _places(x):
  p = [i for i in np.ndindex(*x.shape) if isinstance(x[i], Term) or x[i] != 0]
  if len({i for i, _ in p}) < len(p) or len({j for _, j in p}) < len(p):
    return None
  return sorted(p, key=lambda q: q[1])


def factors(app, x, cons):
  """Values of the outputs at the input x, or None."""
  p = _places(x)
  if p is None:
    return None
  m, n = x.shape
  k = min(m, n)
  if app.kind == 'svd':
    vals = [x[i] for i in p]
    cons += [T.le(0, v) for v in vals] + [T.le(b, a) for a, b in zip(vals, vals[1:])]
    rows, cols = [i for i, _ in p], [j for _, j in p]
    rows += [i for i in range(m) if i not in rows]
    cols += [j for j in range(n) if j not in cols]
    s = (vals + [0] * k)[:k]
    u = np.array([_unit(m, i) for i in rows[:k]], dtype=object).T
    v = np.array([_unit(n, j) for j in cols[:k]], dtype=object).T
    return [s, u, v]
  at = {j: i for i, j in p}
  free = [i for i in range(m) if i not in at.values()]
  late = [at[j] for j in range(k, n) if j in at]
  rows = []
  for j in range(k):
    if j in at:
      rows.append(at[j])
    else:
      if not (free or late):
        return None
      rows.append(free.pop(0) if free else late.pop(0))
  q = np.array([_unit(m, i) for i in rows], dtype=object).T
  r = np.empty((k, n), dtype=object)
  for l in range(k):
    for j in range(n):
      r[l, j] = x[rows[l], j]
      if j < l and (isinstance(r[l, j], Term) or r[l, j] != 0):
        return None
  out = [q, r]
  if len(app.outs) > 2:
    ri = np.zeros((k, k), dtype=int).astype(object)
    for l in range(k):
      if not isinstance(r[l, l], Term):
        return None
      ri[l, l] = T.var('aligned%d_%d' % (id(app) % 10 ** 9, l))
      cons.append(T.eq(T.mul(ri[l, l], r[l, l]), 1))
    out.append(ri)
  return out


def counterexample(args, syms, claims, apps, assum, stats, timeout=10):
  """Values of the input symbols that break a claim, or None."""
  sub, i = {}, 0
  for a in args:
    n = len(a.specs())
    sub.update(pattern(a, syms[i:i + n]))
    i += n
  cons = []
  rest = []
  for app in apps:
    x = np.empty(app.inp.shape, dtype=object)
    x.reshape(-1)[:] = T.substitute(list(app.inp.reshape(-1)), sub)
    if app.kind in ('svd', 'qr'):
      outs = factors(app, x, cons)
      if outs is None:
        return None
      for o, v in zip(app.outs, outs):
        for s, t in zip(o.reshape(-1), np.asarray(v, dtype=object).reshape(-1)):
          if isinstance(s, Term):
            sub[s] = t
    else:
      rest.append(app)
  terms = [a for a in assum if isinstance(a, Term)] + cons
  for app in rest:
    terms += [T.eq(l, r) for _, l, r in app.eqs] + list(app.conds)
  base = T.substitute(terms, sub)
  if any(b is False for b in base):
    return None
  pairs = []
  for c in claims:
    out, ref = T.substitute([c.out, c.ref], sub)
    if c.rel == 'bool':
      if out is not True:
        pairs.append((out, None))
    elif out is not ref:
      pairs.append((out, ref))
  inputs = [t for s in syms for t in s.reshape(-1) if isinstance(t, Term)]
  for margin in (Fraction(1, 4), Fraction(1, 10 ** 4)):
    bad = []
    for out, ref in pairs:
      if ref is None:
        bad.append(T.not_(out))
      else:
        bad += [T.le(T.add(ref, margin), out), T.le(T.add(out, margin), ref)]
    bad = T.or_(*bad) if bad else False
    if bad is False:
      return None
    conv = Conv()
    r, m = decide.solve(stats, [conv(b) for b in base if isinstance(b, Term)] + ([conv(bad)] if isinstance(bad, Term) else []),
                        timeout)
    if r == 'sat':
      return {t: sub[t] if t in sub else decide.model_value(m, conv(t)) for t in inputs}
  return None
