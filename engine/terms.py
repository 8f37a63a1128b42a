"""Hash-consed symbolic terms over reals, integers and booleans.

Array elements in the interpreter are either Python numbers (int, Fraction,
bool) or `Term`s.  Arithmetic is exact: concrete numbers are never floats.
"""
from fractions import Fraction
import math
import numpy as np

_table = {}


class Term(object):
  __slots__ = ('op', 'args', 'sort', 'id', '__weakref__')

  def __init__(self, op, args, sort, id_):
    self.op = op
    self.args = args
    self.sort = sort
    self.id = id_

  def __hash__(self):
    return self.id

  def __eq__(self, other):  # structural identity, used by dicts only
    return self is other

  def __ne__(self, other):
    return self is not other

  def __add__(self, o):
    return add(self, o)

  def __radd__(self, o):
    return add(o, self)

  def __sub__(self, o):
    return add(self, neg(o))

  def __rsub__(self, o):
    return add(o, neg(self))

  def __mul__(self, o):
    return mul(self, o)

  def __rmul__(self, o):
    return mul(o, self)

  def __neg__(self):
    return neg(self)

  def __truediv__(self, o):
    return div(self, o)

  def __rtruediv__(self, o):
    return div(o, self)

  def __pow__(self, k):
    if not isinstance(k, int) or k < 0:
      raise TypeError('only natural powers of terms')
    r = 1
    for _ in range(k):
      r = mul(r, self)
    return r

  def __bool__(self):
    raise TypeError('symbolic term used as a concrete truth value')

  def __repr__(self):
    return show(self, 4)


def show(t, depth=6):
  if not isinstance(t, Term):
    return str(t)
  if t.op == 'var':
    return t.args[0]
  if depth == 0:
    return '...'
  return '(%s %s)' % (t.op, ' '.join(
      show(a, depth - 1) if isinstance(a, (Term, int, Fraction)) else str(a)
      for a in t.args))


def _key(a):
  return a.id if isinstance(a, Term) else ('c', a)


def mk(op, args, sort):
  k = (op, sort) + tuple([a.id if isinstance(a, Term) else ('c', type(a).__name__, a)
                          for a in args])
  t = _table.get(k)
  if t is None:
    t = Term(op, args, sort, len(_table) + 1)
    _table[k] = t
  return t


def reset():
  _table.clear()


def var(name, sort='R'):
  return mk('var', (name,), sort)


def is_num(a):
  return not isinstance(a, Term)


def norm_num(x):
  """Exact Python number for a numpy/Python scalar."""
  if isinstance(x, (bool, np.bool_)):
    return bool(x)
  if isinstance(x, (int, np.integer)):
    return int(x)
  if isinstance(x, Fraction):
    return int(x) if x.denominator == 1 else x
  if isinstance(x, (np.float32, np.float16)):
    return snap(float(x), np.float32)
  if isinstance(x, (float, np.floating)):
    return snap(float(x), np.float64)
  raise TypeError('unsupported number %r' % (x,))


def snap(x, ftype):
  """A float literal stands for the simplest rational that rounds to it."""
  if math.isinf(x) or math.isnan(x):
    raise Unsupported('non-finite constant %r' % x)
  if x == int(x) and abs(x) < 2 ** 60:
    return int(x)
  for bound in (1000, 10 ** 6):
    f = Fraction(x).limit_denominator(bound)
    if f and ftype(float(f)) == ftype(x):
      return int(f) if f.denominator == 1 else f
  # decimal literal such as 1e-8
  try:
    f = Fraction(repr(float('%.6g' % x)))
    if ftype(float(f)) == ftype(x):
      return f
  except ValueError:
    pass
  f = Fraction(x)
  return int(f) if f.denominator == 1 else f


class Unsupported(Exception):
  """The encoding does not cover this; never reported as a violation."""


def _sort(*args):
  for a in args:
    if isinstance(a, Term):
      if a.sort == 'R':
        return 'R'
    elif isinstance(a, Fraction):
      return 'R'
  return 'I' if any(isinstance(a, Term) for a in args) else 'R'


def add(a, b):
  if not isinstance(a, Term):
    if not isinstance(b, Term):
      return _n(a + b)
    if a == 0:
      return b
  elif not isinstance(b, Term):
    if b == 0:
      return a
  return mk('add', (a, b), _sort(a, b))


def _n(x):
  if isinstance(x, Fraction) and x.denominator == 1:
    return int(x)
  return x


def nsum(xs):
  c = 0
  ts = []
  for x in xs:
    if isinstance(x, Term):
      ts.append(x)
    else:
      c = c + x
  c = _n(c)
  if not ts:
    return c
  if c != 0:
    ts.append(c)
  if len(ts) == 1:
    return ts[0]
  return mk('add', tuple(ts), _sort(*ts))


def neg(a):
  if not isinstance(a, Term):
    return -a
  return mul(-1, a)


def mul(a, b):
  if not isinstance(a, Term):
    if not isinstance(b, Term):
      return _n(a * b)
    if a == 0:
      return 0
    if a == 1:
      return b
    if b.op == 'mul' and not isinstance(b.args[0], Term):
      c = _n(a * b.args[0])
      return b.args[1] if c == 1 else mk('mul', (c, b.args[1]), _sort(c, b.args[1]))
    return mk('mul', (a, b), _sort(a, b))
  if not isinstance(b, Term):
    return mul(b, a)
  # pull constants out
  if a.op == 'mul' and not isinstance(a.args[0], Term):
    return mul(a.args[0], mul(a.args[1], b))
  if b.op == 'mul' and not isinstance(b.args[0], Term):
    return mul(b.args[0], mul(a, b.args[1]))
  if b.id < a.id:
    a, b = b, a
  return mk('mul', (a, b), _sort(a, b))


def div(a, b):
  if not isinstance(b, Term):
    if b == 0:
      raise Unsupported('division by the constant zero')
    return mul(Fraction(1) / b, a)
  if not isinstance(a, Term) and a == 0:
    return 0
  if a is b:
    # Kept as a division: x/x is only 1 where x is non-zero.
    pass
  return mk('div', (a, b), 'R')


def ite(c, a, b):
  if not isinstance(c, Term):
    return a if c else b
  if isinstance(a, Term) or isinstance(b, Term):
    if a is b:
      return a
  elif a == b and type(a) == type(b):
    return a
  s = a.sort if isinstance(a, Term) else (b.sort if isinstance(b, Term) else
                                          ('B' if isinstance(a, bool) else
                                           'R' if isinstance(a, Fraction) or isinstance(b, Fraction) else 'I'))
  if s == 'B':
    return or_(and_(c, a), and_(not_(c), b))
  if isinstance(a, Term) and isinstance(b, Term) and a.sort != b.sort:
    s = 'R'
  return mk('ite', (c, a, b), s)


def not_(a):
  if not isinstance(a, Term):
    return not a
  if a.op == 'not':
    return a.args[0]
  return mk('not', (a,), 'B')


def and_(*xs):
  ts = []
  for x in xs:
    if isinstance(x, Term):
      ts.append(x)
    elif not x:
      return False
  if not ts:
    return True
  return ts[0] if len(ts) == 1 else mk('and', tuple(ts), 'B')


def or_(*xs):
  ts = []
  for x in xs:
    if isinstance(x, Term):
      ts.append(x)
    elif x:
      return True
  if not ts:
    return False
  return ts[0] if len(ts) == 1 else mk('or', tuple(ts), 'B')


def eq(a, b):
  if not isinstance(a, Term) and not isinstance(b, Term):
    return a == b
  if a is b:
    return True
  if (isinstance(a, Term) and a.sort == 'B') or (isinstance(b, Term) and b.sort == 'B'):
    if not isinstance(a, Term):
      a, b = b, a
    if not isinstance(b, Term):
      return a if b else not_(a)
    return mk('iff', (a, b), 'B')
  return mk('eq', (a, b), 'B')


def lt(a, b):
  if not isinstance(a, Term) and not isinstance(b, Term):
    return a < b
  if a is b:
    return False
  return mk('lt', (a, b), 'B')


def le(a, b):
  if not isinstance(a, Term) and not isinstance(b, Term):
    return a <= b
  if a is b:
    return True
  return mk('le', (a, b), 'B')


def idiv(a, b):
  """Floor division of integers."""
  if not isinstance(a, Term) and not isinstance(b, Term):
    return a // b
  if not isinstance(b, Term) and b == 1:
    return a
  return mk('idiv', (a, b), 'I')


def imod(a, b):
  if not isinstance(a, Term) and not isinstance(b, Term):
    return a % b
  if not isinstance(b, Term) and b == 1:
    return 0
  return mk('imod', (a, b), 'I')


def to_real(a):
  if not isinstance(a, Term):
    return int(a) if isinstance(a, bool) else a
  if a.sort == 'R':
    return a
  if a.sort == 'B':
    return mk('ite', (a, 1, 0), 'R')
  return mk('toreal', (a,), 'R')


def to_int(a):
  if not isinstance(a, Term):
    return int(a)  # truncation, as in Cast
  if a.sort == 'B':
    return mk('ite', (a, 1, 0), 'I')
  if a.sort == 'I':
    return a
  if a.op == 'toreal':
    return a.args[0]
  raise Unsupported('symbolic real to integer cast')


def abs_(a):
  if not isinstance(a, Term):
    return abs(a)
  return ite(le(0, a), a, neg(a))


def abs_arg(t):
  """x when t is |x|, else None."""
  if t.op == 'ite' and isinstance(t.args[1], Term) and abs_(t.args[1]) is t:
    return t.args[1]
  return None


def sign(a):
  if not isinstance(a, Term):
    return (a > 0) - (a < 0)
  return ite(lt(0, a), 1, ite(lt(a, 0), -1, 0))


def maximum(a, b):
  if is_num(a) and is_num(b):
    return max(a, b)
  return ite(le(b, a), a, b)


def minimum(a, b):
  if is_num(a) and is_num(b):
    return min(a, b)
  return ite(le(a, b), a, b)


# ---------------------------------------------------------------- traversal

def postorder(roots):
  seen = set()
  out = []
  for r in roots:
    if not isinstance(r, Term) or r.id in seen:
      continue
    stack = [(r, False)]
    while stack:
      t, done = stack.pop()
      if done:
        out.append(t)
        continue
      if t.id in seen:
        continue
      seen.add(t.id)
      stack.append((t, True))
      for a in t.args:
        if isinstance(a, Term) and a.id not in seen:
          stack.append((a, False))
  return out


def variables(roots):
  return [t for t in postorder(roots) if t.op == 'var']


def rebuild(op, args, t):
  if op == 'add':
    return nsum(args)
  if op == 'mul':
    return mul(*args)
  if op == 'div':
    return div(*args)
  if op == 'ite':
    return ite(*args)
  if op == 'not':
    return not_(*args)
  if op == 'and':
    return and_(*args)
  if op == 'or':
    return or_(*args)
  if op in ('eq', 'iff'):
    return eq(*args)
  if op == 'lt':
    return lt(*args)
  if op == 'le':
    return le(*args)
  if op == 'idiv':
    return idiv(*args)
  if op == 'imod':
    return imod(*args)
  if op == 'toreal':
    return to_real(args[0])
  return mk(op, tuple(args), t.sort)


def substitute(roots, mapping):
  """mapping: Term -> Term or number. Returns the list of rewritten roots."""
  memo = {k.id: v for k, v in mapping.items()}
  for t in postorder(roots):
    if t.id in memo or t.op == 'var':
      memo.setdefault(t.id, t)
      continue
    new = [memo[a.id] if isinstance(a, Term) else a for a in t.args]
    if all(x is y for x, y in zip(new, t.args)):
      memo[t.id] = t
    else:
      memo[t.id] = rebuild(t.op, new, t)
  return [memo[r.id] if isinstance(r, Term) else r for r in roots]


def evaluate(roots, env):
  """Numeric evaluation; env maps var Term -> number (Fraction or float)."""
  memo = {}
  for t in postorder(roots):
    a = [memo[x.id] if isinstance(x, Term) else x for x in t.args]
    op = t.op
    if op == 'var':
      v = env[t]
    elif op == 'add':
      v = a[0]
      for x in a[1:]:
        v = v + x
    elif op == 'mul':
      v = a[0] * a[1]
    elif op == 'div':
      v = (Fraction(a[0]) / a[1] if not isinstance(a[0], float) and not isinstance(a[1], float)
           else (a[0] / a[1] if a[1] != 0 else float('nan')))
    elif op == 'ite':
      v = a[1] if a[0] else a[2]
    elif op == 'not':
      v = not a[0]
    elif op == 'and':
      v = all(a)
    elif op == 'or':
      v = any(a)
    elif op in ('eq', 'iff'):
      v = a[0] == a[1]
    elif op == 'lt':
      v = a[0] < a[1]
    elif op == 'le':
      v = a[0] <= a[1]
    elif op == 'idiv':
      v = a[0] // a[1]
    elif op == 'imod':
      v = a[0] % a[1]
    elif op == 'toreal':
      v = a[0]
    elif op == 'log':
      v = math.log(a[0])
    elif op == 'exp':
      v = math.exp(a[0])
    else:
      raise Unsupported('evaluate ' + op)
    memo[t.id] = v
  return [memo[r.id] if isinstance(r, Term) else r for r in roots]
