"""Path exploration of Python code over symbolic numbers.

The code under test is run unchanged. Its inputs are numbers that carry an
expression next to the value they have on the current path. Every comparison
is decided by the value and recorded; the solver then produces values for the
other side of each recorded comparison until no feasible path is left. What
holds on a path is claimed for all values that satisfy its conditions.
"""
import time
from engine import decide
from engine import harness
from engine.terms import Unsupported
from engine.z3conv import z3

_current = None


class _Path(object):

  def __init__(self, values):
    self.values = values    # name -> number
    self.conds = []         # z3 booleans true on this path


def _branch(cond, truth):
  if _current is not None:
    _current.conds.append(cond if truth else z3.Not(cond))
  return truth


def expr(x):
  """z3 expression of a plain or symbolic number."""
  if isinstance(x, (SymInt, SymReal)):
    return x.expr
  if isinstance(x, bool) or not isinstance(x, (int, float)):
    x = int(x)
  return z3.IntVal(x) if isinstance(x, int) else z3.RealVal(x)


def _number(x):
  return isinstance(x, (int, float)) and not isinstance(x, bool)


def _compare(name, zop):
  def f(self, other):
    base = int if isinstance(self, int) else float
    r = getattr(base, name)(self, other)
    if r is NotImplemented or not _number(other):
      return r
    return _branch(zop(self.expr, expr(other)), r)
  return f


def _arith(name, zop):
  def f(self, other):
    base = int if isinstance(self, int) else float
    r = getattr(base, name)(self, other)
    if r is NotImplemented or not _number(other) or isinstance(other, float) and base is int:
      return r
    return type(self)(r, zop(self.expr, expr(other)))
  return f


def _operators(cls):
  for n, z in (('eq', lambda a, b: a == b), ('ne', lambda a, b: a != b), ('lt', lambda a, b: a < b),
               ('le', lambda a, b: a <= b), ('gt', lambda a, b: a > b), ('ge', lambda a, b: a >= b)):
    setattr(cls, '__%s__' % n, _compare('__%s__' % n, z))
  for n, z in (('add', lambda a, b: a + b), ('sub', lambda a, b: a - b), ('mul', lambda a, b: a * b),
               ('radd', lambda a, b: b + a), ('rsub', lambda a, b: b - a), ('rmul', lambda a, b: b * a)):
    setattr(cls, '__%s__' % n, _arith('__%s__' % n, z))
  cls.__neg__ = lambda self: cls(-self.plain(), -self.expr)
  cls.__bool__ = lambda self: _branch(self.expr != 0, self.plain() != 0)
  cls.__hash__ = lambda self: hash(self.fix())
  return cls


@_operators
class SymInt(int):

  def __new__(cls, value, e):
    x = int.__new__(cls, value)
    x.expr = e
    return x

  def plain(self):
    return int.__add__(self, 0)

  def fix(self):
    """Used as a plain number: only this value is covered by the path."""
    v = self.plain()
    _branch(self.expr == v, True)
    return v

  __int__ = __index__ = fix


@_operators
class SymReal(float):

  def __new__(cls, value, e):
    x = float.__new__(cls, value)
    x.expr = e
    return x

  def plain(self):
    return float.__add__(self, 0.0)

  def fix(self):
    v = self.plain()
    _branch(self.expr == z3.RealVal(v), True)
    return v

  __float__ = fix


class PathCase(object):
  """names: symbols; prog(values) runs the real code.

  prog returns a list of facts (text, a, b) that must agree, and raises when
  the code rejects the input. fits(z) is the condition under which it may not
  raise; otherwise it has to raise one of `errors`.
  """

  def __init__(self, name, names, prog, fits, errors=(ValueError,), lo=1, sort='I',
               functions=(), limit=400, bounds=(6, 60), hi=None):
    self.name = name
    self.names = list(names)
    self.prog = prog
    self.fits = fits
    self.errors = tuple(errors)
    self.lo = lo
    self.sort = sort
    self.functions = list(functions)
    self.limit = limit
    self.bounds = bounds
    self.hi = hi

  # ------------------------------------------------------------- exploration
  def symbol(self, n):
    return z3.Int(n) if self.sort == 'I' else z3.Real(n)

  def base(self):
    out = [] if self.lo is None else [self.symbol(n) >= self.lo for n in self.names]
    return out if self.hi is None else out + [self.symbol(n) <= self.hi for n in self.names]

  def solve(self, cons, stats):
    """Small values first, so that they can be replayed."""
    r, m = decide.solve(stats, self.base() + cons, 30)
    if r != 'sat':
      return r, None
    for b in self.bounds:
      v = {n: self._value(m, n) for n in self.names}
      if all(abs(x) <= b for x in v.values()):
        break
      small = [z3.And(self.symbol(n) <= b, self.symbol(n) >= -b) for n in self.names]
      q, m2 = decide.solve(stats, self.base() + cons + small, 30)
      m = m2 if q == 'sat' else m
    return r, {n: self._value(m, n) for n in self.names}

  def _value(self, m, n):
    v = m.eval(self.symbol(n), model_completion=True)
    if self.sort == 'I':
      return v.as_long()
    return float(v.as_fraction())

  def one(self, values):
    """Run the code on one path; -> (conditions, outcome)."""
    global _current
    cls = SymInt if self.sort == 'I' else SymReal
    path = _Path(values)
    args = {n: cls(values[n], self.symbol(n)) for n in self.names}
    _current = path
    try:
      try:
        out = ('value', self.prog(args))
      except Exception as e:
        out = ('raise', e)
    finally:
      _current = None
    return path.conds, out

  def run(self, seed):
    res = harness.Result(self.name)
    t0 = time.time()
    try:
      self._run(res)
    except Unsupported as e:
      res.status, res.detail = 'undecided', 'unsupported: %s' % e
    except Exception as e:
      res.status, res.detail = 'undecided', 'engine: %s: %s' % (type(e).__name__, str(e)[:300])
    res.wall = time.time() - t0
    return res

  def _run(self, res):
    st = res.stats
    res.functions = self.functions
    z = {n: self.symbol(n) for n in self.names}
    fits = self.fits(z)
    r, start = self.solve([], st)
    if r != 'sat':
      raise Unsupported('no values satisfy the bounds')
    todo = [([], start)]
    kinds = set()
    while todo:
      if st.paths > self.limit:
        raise Unsupported('more than %d paths' % self.limit)
      prefix, values = todo.pop()
      conds, out = self.one(values)
      st.paths += 1
      res.witness = 1
      for k in range(len(prefix), len(conds)):
        alt = conds[:k] + [z3.Not(conds[k])]
        r, v = self.solve(alt, st)
        if r == 'sat':
          todo.append((alt, v))
        elif r != 'unsat':
          raise Unsupported('feasibility unknown')
      kinds.add(out[0])
      for text, claim in self.claims(out, fits):
        res.claims += 1
        if claim is True:
          continue
        r, v = self.solve(conds + ([] if claim is False else [z3.Not(claim)]), st)
        if r == 'unsat':
          continue
        if r != 'sat':
          raise Unsupported('claim unknown')
        res.sat_claims += 1
        res.replays += 1
        bad = self.failures(v)
        if bad:
          res.status, res.mode, res.detail = 'violation', 'direct', bad
          res.values = [v[n] for n in self.names]
          return
        raise Unsupported('%s is not decided by the recorded comparisons' % text)
    res.structural = len(kinds)
    res.status = 'proved'

  def claims(self, out, fits):
    if out[0] == 'raise':
      yield 'raising %s' % type(out[1]).__name__, z3.Not(fits)
      if not isinstance(out[1], self.errors):
        yield 'kind of error', False
      return
    yield 'accepting', fits
    for text, a, b in out[1]:
      if a is None or b is None or not (_number(a) and _number(b)):
        yield text, a == b
      else:
        yield text, expr(a) == expr(b)

  # ------------------------------------------------------------------ replay
  def failures(self, values):
    """Plain numbers on the real code; -> message or ''."""
    fits = z3.is_true(z3.simplify(self.fits({n: z3.IntVal(v) if self.sort == 'I' else z3.RealVal(v)
                                             for n, v in values.items()})))
    where = ', '.join('%s=%s' % (n, values[n]) for n in self.names)
    try:
      facts = self.prog(dict(values))
    except Exception as e:
      if fits:
        return 'raises %s for %s' % (type(e).__name__, where)
      if not isinstance(e, self.errors):
        return 'raises %s for %s' % (type(e).__name__, where)
      return ''
    if not fits:
      return 'accepts %s' % where
    for text, a, b in facts:
      if a != b:
        return '%s is %s instead of %s for %s' % (text, a, b, where)
    return ''

  def replay(self, d):
    return self.failures({n: (int(v) if self.sort == 'I' else float(v)) for n, v in zip(self.names, d['values'])})
