"""Sparse exact polynomials and certificate search modulo contract equations.

A monomial is a tuple of integer variable priorities in descending order, so
Python's tuple order is the lexicographic monomial order.
"""
from fractions import Fraction
from engine import terms as T
from engine.terms import Term, Unsupported


class TooBig(Exception):
  pass


def mmul(a, b):
  if not a:
    return b
  if not b:
    return a
  return tuple(sorted(a + b, reverse=True))


def padd(p, q, c=1):
  for m, v in q.items():
    w = p.get(m, 0) + c * v
    if w:
      p[m] = w
    else:
      p.pop(m, None)
  return p


def pmul(p, q, limit=2000000):
  if len(p) * len(q) > limit:
    raise TooBig('polynomial product')
  r = {}
  for m1, c1 in p.items():
    for m2, c2 in q.items():
      m = mmul(m1, m2)
      w = r.get(m, 0) + c1 * c2
      if w:
        r[m] = w
      else:
        del r[m]
  return r


class Ring(object):
  """Maps var terms to priorities; expands terms."""

  def __init__(self, priority):
    self.pr = priority          # Term id -> int priority
    self.memo = {}
    self.inv = {v: k for k, v in priority.items()}

  def expand(self, t):
    if not isinstance(t, Term):
      return {(): t} if t else {}
    memo = self.memo
    if t.id in memo:
      return memo[t.id]
    for u in T.postorder([t]):
      if u.id in memo:
        continue
      memo[u.id] = self._one(u)
    return memo[t.id]

  def _get(self, a):
    if isinstance(a, Term):
      return self.memo[a.id]
    return {(): a} if a else {}

  def _one(self, u):
    op = u.op
    if op == 'var' or op == 'log':
      return {(self.pr[u.id],): 1}
    if op == 'add':
      r = {}
      for a in u.args:
        padd(r, self._get(a))
      return r
    if op == 'mul':
      return pmul(self._get(u.args[0]), self._get(u.args[1]))
    if op == 'toreal':
      return self._get(u.args[0])
    raise Unsupported('polynomial expansion of ' + op)


def divides(lead, m):
  """Multiset inclusion for descending tuples; returns the quotient or None."""
  q = []
  i = 0
  n = len(lead)
  for x in m:
    if i < n and x == lead[i]:
      i += 1
    else:
      if i < n and x < lead[i]:
        return None
      q.append(x)
  return tuple(q) if i == n else None


def lcm(a, b):
  q = []
  i = j = 0
  while i < len(a) or j < len(b):
    if j == len(b) or (i < len(a) and a[i] > b[j]):
      q.append(a[i])
      i += 1
    elif i == len(a) or b[j] > a[i]:
      q.append(b[j])
      j += 1
    else:
      q.append(a[i])
      i += 1
      j += 1
  return tuple(q)


class Reducer(object):

  def __init__(self, axioms):
    """axioms: list of (poly, ident); poly == 0 is assumed."""
    self.by_var = {}
    self.rules = []
    for p, ident in axioms:
      if not p:
        continue
      self.add(p, ident)

  def add(self, p, ident):
    lead = max(p)
    if not lead:
      raise Unsupported('inconsistent contract (constant axiom)')
    c = p[lead]
    rule = (lead, c, p, ident)
    self.rules.append(rule)
    # index by the rarest (lowest) variable of the lead
    self.by_var.setdefault(lead[0], []).append(rule)

  def find(self, m):
    last = None
    for x in m:
      if x == last:
        continue
      last = x
      for rule in self.by_var.get(x, ()):
        q = divides(rule[0], m)
        if q is not None:
          return rule, q
    return None

  def reduce(self, p, limit=400000, cert=None):
    """Normal form of p; cert accumulates {ident: {monomial: coef}}."""
    p = dict(p)
    work = sorted(p)
    done = set()
    steps = 0
    import heapq
    heap = [_Rev(m) for m in p]
    heapq.heapify(heap)
    while heap:
      m = heapq.heappop(heap).m
      if m not in p or m in done:
        continue
      f = self.find(m)
      if f is None:
        done.add(m)
        continue
      (lead, c, ax, ident), q = f
      coef = p[m] / Fraction(c) if c not in (1, -1) else p[m] * c
      if isinstance(coef, Fraction) and coef.denominator == 1:
        coef = int(coef)
      steps += 1
      if steps > limit:
        raise TooBig('reduction steps')
      if cert is not None:
        d = cert.setdefault(ident, {})
        d[q] = d.get(q, 0) + coef
      for am, ac in ax.items():
        mm = mmul(q, am)
        old = p.get(mm)
        w = (old or 0) - coef * ac
        if w:
          p[mm] = w
          if old is None:
            heapq.heappush(heap, _Rev(mm))
        elif old is not None:
          del p[mm]
    return p


class _Rev(object):
  __slots__ = ('m',)

  def __init__(self, m):
    self.m = m

  def __lt__(self, o):
    return self.m > o.m
