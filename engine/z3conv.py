"""Term DAG -> z3."""
import os
import sys
from fractions import Fraction
from engine import terms as T
from engine.terms import Term

_site = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def _import_z3():
  try:
    import z3
    return z3
  except ImportError:
    sys.path.append(_site)
    try:
      import z3
    finally:
      sys.path.remove(_site)
    return z3


z3 = _import_z3()


def num(x, sort='R'):
  if isinstance(x, bool):
    return z3.BoolVal(x)
  if sort == 'I':
    return z3.IntVal(int(x))
  f = Fraction(x)
  return z3.RatVal(f.numerator, f.denominator)


class Conv(object):

  def __init__(self):
    self.memo = {}

  def __call__(self, t):
    if not isinstance(t, Term):
      return num(t)
    memo = self.memo
    if t.id in memo:
      return memo[t.id]
    for u in T.postorder([t]):
      if u.id in memo:
        continue
      memo[u.id] = self._one(u)
    return memo[t.id]

  def _arg(self, a, sort):
    if isinstance(a, Term):
      r = self.memo[a.id]
      if sort == 'R' and a.sort == 'I':
        return z3.ToReal(r)
      return r
    return num(a, sort)

  def _one(self, u):
    op = u.op
    if op == 'var':
      n = u.args[0]
      return (z3.Real(n) if u.sort == 'R' else z3.Int(n) if u.sort == 'I' else z3.Bool(n))
    if op == 'add':
      return z3.Sum([self._arg(a, u.sort) for a in u.args])
    if op == 'mul':
      return self._arg(u.args[0], u.sort) * self._arg(u.args[1], u.sort)
    if op == 'div':
      return self._arg(u.args[0], 'R') / self._arg(u.args[1], 'R')
    if op == 'ite':
      return z3.If(self.memo[u.args[0].id], self._arg(u.args[1], u.sort), self._arg(u.args[2], u.sort))
    if op == 'not':
      return z3.Not(self.memo[u.args[0].id])
    if op in ('and', 'or'):
      xs = [self._arg(a, 'B') for a in u.args]
      return z3.And(xs) if op == 'and' else z3.Or(xs)
    if op == 'iff':
      return self._arg(u.args[0], 'B') == self._arg(u.args[1], 'B')
    if op in ('eq', 'lt', 'le'):
      s = 'R' if any((isinstance(a, Term) and a.sort == 'R') or isinstance(a, Fraction) for a in u.args) else 'I'
      a, b = [self._arg(a, s) for a in u.args]
      return a == b if op == 'eq' else a < b if op == 'lt' else a <= b
    if op == 'toreal':
      return z3.ToReal(self.memo[u.args[0].id])
    if op in ('idiv', 'imod'):
      # floor semantics; z3 div/mod agree with floor for positive divisors
      a, b = [self._arg(x, 'I') for x in u.args]
      if op == 'idiv':
        q = a / b
        return q if self._pos(u.args[1]) else z3.If(b > 0, q, (-a) / (-b))
      m = a % b
      return m if self._pos(u.args[1]) else z3.If(b > 0, m, -((-a) % (-b)))
    if op == 'log':
      return z3.Function('log', z3.RealSort(), z3.RealSort())(self._arg(u.args[0], 'R'))
    raise T.Unsupported('z3 conversion of ' + op)

  @staticmethod
  def _pos(x):
    return not isinstance(x, Term) and x > 0
