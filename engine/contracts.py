"""Contract stubs for numerical kernels: fresh symbols plus their equations."""
from fractions import Fraction
import math
import numpy as np

from engine import terms as T
from engine.terms import Term, Unsupported


class App(object):
  """One application of a contracted function."""

  def __init__(self, kind, inp, outs, eqs, conds, numeric):
    self.kind = kind
    self.inp = inp          # object array (input expressions)
    self.outs = outs        # list of object arrays of fresh variables
    self.eqs = eqs          # list of (tag, lhs, rhs): lhs == rhs
    self.conds = conds      # list of boolean terms
    self.numeric = numeric  # float array -> list of float arrays
    self.info = {}


class Ctx(object):
  """State of one symbolic run."""

  def __init__(self, prefix=''):
    self.apps = []
    self.memo = {}
    self.asserts = []       # run-time checks the program performs
    self.domain = []        # arguments of even roots
    self.divisors = []      # denominators that must be non-zero
    self.nops = 0
    self.op_types = set()
    self.state = {}
    self.effects = []
    self.counter = 0
    self.prefix = prefix
    self.draws = []
    self.full_rank = False  # assume square triangular factors are invertible
    self.calls = 0
    self.wide = False

  def fresh(self, base, shape):
    self.counter += 1
    name = '%s%s%d' % (self.prefix, base, self.counter)
    a = np.empty(shape, dtype=object)
    if a.ndim == 0:
      a[()] = T.var(name)
      return a
    for i in np.ndindex(*a.shape):
      a[i] = T.var('%s_%s' % (name, '_'.join(map(str, i))))
    return a

  def env_extend(self, env):
    """Numeric values of all contract variables, given input values."""
    for app in self.apps:
      flat = T.evaluate(list(app.inp.reshape(-1)), env)
      x = np.array([float(v) for v in flat]).reshape(app.inp.shape)
      vals = app.numeric(x)
      for o, v in zip(app.outs, vals):
        v = np.asarray(v, dtype=float)
        for p, q in zip(o.reshape(-1), v.reshape(-1)):
          if isinstance(p, Term):
            env[p] = float(q)
    return env


def _memo_key(kind, a):
  return (kind, a.shape) + tuple(
      x.id if isinstance(x, Term) else ('c', x) for x in a.reshape(-1))


def _reg(ctx, key, app):
  ctx.apps.append(app)
  ctx.memo[key] = app
  return app


def _dot(xs, ys):
  return T.nsum([T.mul(x, y) for x, y in zip(xs, ys)])


def qr(ctx, a, full=False):
  if full:
    raise Unsupported('full QR')
  ctx.calls += 1
  key = _memo_key('qr', a)
  if key in ctx.memo:
    return ctx.memo[key].outs[:2]
  m, n = a.shape
  k = min(m, n)
  if not any(isinstance(x, Term) for x in a.flat) and not any(a.flat):
    q = np.array([[1 if i == j else 0 for j in range(k)] for i in range(m)], dtype=object)
    return [q, np.zeros((k, n), dtype=int).astype(object)]
  q = ctx.fresh('Q', (m, k))
  r = ctx.fresh('R', (k, n))
  for i in range(k):
    for j in range(min(i, n)):
      r[i, j] = 0
  eqs = []
  for i in range(m):
    for j in range(n):
      eqs.append(('fact', a[i, j], _dot(q[i], r[:, j])))
  for i in range(k):
    for j in range(i, k):
      eqs.append(('orth', _dot(q[:, i], q[:, j]), 1 if i == j else 0))
  if m == k:
    for i in range(m):
      for j in range(i, m):
        eqs.append(('orth2', _dot(q[i], q[j]), 1 if i == j else 0))
  outs = [q, r]
  app = App('qr', a, outs, eqs, [], None)

  def numeric(x):
    import tensorflow as tf
    qq, rr = tf.linalg.qr(tf.constant(x))
    res = [qq.numpy(), rr.numpy()]
    if len(app.outs) > 2:
      res.append(np.linalg.pinv(rr.numpy()))
    return res

  app.numeric = numeric
  if ctx.full_rank and k == n:
    add_inverse(ctx, app)
  return _reg(ctx, key, app).outs[:2]


def add_inverse(ctx, app):
  """Adds R^-1 as a further output (full-rank assumption)."""
  r = app.outs[1]
  k = r.shape[0]
  ri = ctx.fresh('Ri', (k, k))
  for i in range(k):
    for j in range(i):
      ri[i, j] = 0
  app.outs.append(ri)
  for i in range(k):
    for j in range(i, k):
      app.eqs.append(('inv', _dot(r[i], ri[:, j]), 1 if i == j else 0))
      app.eqs.append(('inv', _dot(ri[i], r[:, j]), 1 if i == j else 0))


def svd(ctx, a, full=False):
  if full:
    raise Unsupported('full SVD')
  ctx.calls += 1
  key = _memo_key('svd', a)
  if key in ctx.memo:
    return ctx.memo[key].outs
  m, n = a.shape
  k = min(m, n)
  s = ctx.fresh('S', (k,))
  u = ctx.fresh('U', (m, k))
  v = ctx.fresh('V', (n, k))
  eqs = []
  for i in range(m):
    for j in range(n):
      eqs.append(('fact', a[i, j],
                  T.nsum([T.mul(T.mul(u[i, l], s[l]), v[j, l]) for l in range(k)])))
  for mat, d in ((u, m), (v, n)):
    for i in range(k):
      for j in range(i, k):
        eqs.append(('orth', _dot(mat[:, i], mat[:, j]), 1 if i == j else 0))
    if d == k:
      for i in range(d):
        for j in range(i, d):
          eqs.append(('orth2', _dot(mat[i], mat[j]), 1 if i == j else 0))
  conds = [T.le(0, s[k - 1])] + [T.le(s[i + 1], s[i]) for i in range(k - 1)] if k else []

  def numeric(x):
    import tensorflow as tf
    ss, uu, vv = tf.linalg.svd(tf.constant(x))
    return [ss.numpy(), uu.numpy(), vv.numpy()]

  return _reg(ctx, key, App('svd', a, [s, u, v], eqs, conds, numeric)).outs


def root(ctx, x, n):
  """Non-negative n-th root of x (x >= 0 is recorded as a requirement)."""
  if n == 1:
    return x
  if T.is_num(x):
    if x < 0:
      raise Unsupported('root of a negative constant')
    f = Fraction(x)
    p, q = round(f.numerator ** (1.0 / n)), round(f.denominator ** (1.0 / n))
    if p ** n == f.numerator and q ** n == f.denominator:
      return T._n(Fraction(p, q))
  a = np.empty((), dtype=object)
  a[()] = x
  key = _memo_key('root%d' % n, a)
  if key in ctx.memo:
    return ctx.memo[key].outs[0][()]
  ctx.calls += 1
  y = ctx.fresh('rt', ())
  ctx.domain.append(x)
  app = App('root', a, [y], [('root', y[()] ** n, x)], [T.le(0, y[()])],
            lambda v: [np.asarray(max(float(v), 0.0) ** (1.0 / n))])
  app.info['n'] = n
  return _reg(ctx, key, app).outs[0][()]


def nonneg(t, roots=()):
  """t is visibly built from squares, nonnegative numbers and roots."""
  memo = {}
  for u in T.postorder([t]):
    ok = [memo[a.id] if isinstance(a, Term) else not isinstance(a, bool) and T.is_num(a) and a >= 0 for a in u.args
          ] if u.op in ('add', 'mul', 'ite') else []
    if u.op == 'ite':
      ok = ok[1:]
    memo[u.id] = u.id in roots or bool(ok) and (all(ok) or u.op == 'mul' and u.args[0] is u.args[1])
  return memo[t.id]


def positive(t):
  """A visibly nonnegative sum with a positive number in it."""
  return t.op == 'add' and any(T.is_num(a) and a > 0 for a in t.args) and nonneg(t)


def guarded(app):
  """The condition under which a root or reciprocal exists, or None."""
  if app.kind not in ('root', 'recip'):
    return None
  x = app.inp[()]
  return T.le(0, x) if app.kind == 'root' else T.not_(T.eq(x, 0))


def weaken(app):
  """Let the value of a root or reciprocal that may not exist be anything."""
  ok = guarded(app)
  app.eqs = [(tag, T.ite(ok, l, r), r) for tag, l, r in app.eqs]
  app.conds = [T.or_(T.not_(ok), c) for c in app.conds]


def divide(ctx, a, b):
  if T.is_num(b):
    if b == 0:
      raise Unsupported('division by the constant zero')
    return T.div(a, b)
  if T.is_num(a) and a == 0:
    ctx.divisors.append(b)
    return 0
  ctx.divisors.append(b)
  return T.mul(a, recip(ctx, b))


def recip(ctx, b):
  a = np.empty((), dtype=object)
  a[()] = b
  key = _memo_key('recip', a)
  if key in ctx.memo:
    return ctx.memo[key].outs[0][()]
  ctx.calls += 1
  y = ctx.fresh('rc', ())
  app = App('recip', a, [y], [('inv', T.mul(y[()], b), 1)], [],
            lambda v: [np.asarray(1.0 / float(v) if float(v) else float('nan'))])
  return _reg(ctx, key, app).outs[0][()]


def power(ctx, x, y):
  """x ** y for a constant rational exponent."""
  if not T.is_num(y):
    raise Unsupported('symbolic exponent')
  y = Fraction(y)
  y = y.limit_denominator(64) if abs(float(y.limit_denominator(64)) - float(y)) < 1e-7 else y
  p, q = y.numerator, y.denominator
  if q > 64 or abs(p) > 64:
    raise Unsupported('exponent %s' % y)
  base = root(ctx, x, q)
  if p < 0:
    base = divide(ctx, 1, base)
  r = 1
  for _ in range(abs(p)):
    r = T.mul(r, base)
  return r


def log(ctx, x):
  if T.is_num(x) and x == 1:
    return 0
  if T.is_num(x) and x <= 0:
    raise Unsupported('logarithm of a non-positive constant')
  return T.mk('log', (x,), 'R')


def linear_logs(t):
  """t as {argument: rational coefficient} over log atoms (plus constant)."""
  if T.is_num(t):
    return {None: t}
  if t.op == 'log':
    return {t.args[0]: 1}
  if t.op == 'add':
    out = {}
    for a in t.args:
      for k, v in linear_logs(a).items():
        out[k] = out.get(k, 0) + v
    return out
  if t.op == 'mul':
    a, b = t.args
    if T.is_num(b):
      a, b = b, a
    if T.is_num(a):
      return {k: T._n(v * a) for k, v in linear_logs(b).items()}
  raise Unsupported('exponential of a non-logarithmic term')


def exp(ctx, t):
  if T.is_num(t) and t == 0:
    return 1
  d = linear_logs(t)
  if d.pop(None, 0) != 0:
    raise Unsupported('exponential of a constant')
  lcm = 1
  for v in d.values():
    lcm = lcm * Fraction(v).denominator // math.gcd(lcm, Fraction(v).denominator)
  prod = 1
  for k, v in d.items():
    e = int(Fraction(v) * lcm)
    if e < 0:
      k = divide(ctx, 1, k)
    for _ in range(abs(e)):
      prod = T.mul(prod, k)
  return root(ctx, prod, lcm)


def det(a):
  n = a.shape[0]
  if n != a.shape[1]:
    raise Unsupported('determinant of a rectangular matrix')
  if n == 1:
    return a[0, 0]
  tot = []
  for j in range(n):
    minor = np.delete(np.delete(a, 0, 0), j, 1)
    tot.append(T.mul(T.mul(1 if j % 2 == 0 else -1, a[0, j]), det(minor)))
  return T.nsum(tot)


def inverse(ctx, a):
  ctx.calls += 1
  key = _memo_key('inv', a)
  if key in ctx.memo:
    return ctx.memo[key].outs[0]
  n = a.shape[0]
  x = ctx.fresh('I', (n, n))
  eqs = []
  for i in range(n):
    for j in range(n):
      d = 1 if i == j else 0
      eqs.append(('inv', _dot(a[i], x[:, j]), d))
      eqs.append(('inv', _dot(x[i], a[:, j]), d))
  ctx.divisors.append(det(a))
  return _reg(ctx, key, App('inv', a, [x], eqs, [], lambda v: [np.linalg.inv(v)])).outs[0]


def cholesky(ctx, a):
  ctx.calls += 1
  key = _memo_key('chol', a)
  if key in ctx.memo:
    return ctx.memo[key].outs[0]
  n = a.shape[0]
  l = ctx.fresh('L', (n, n))
  for i in range(n):
    for j in range(i + 1, n):
      l[i, j] = 0
  # The kernel reads the lower triangle only.
  eqs = [('fact', a[i, j], _dot(l[i], l[j])) for i in range(n) for j in range(i + 1)]
  conds = [T.lt(0, l[i, i]) for i in range(n)]
  return _reg(ctx, key, App('chol', a, [l], eqs, conds,
                            lambda v: [np.linalg.cholesky(v)])).outs[0]


def rounded(ctx, x):
  """x after rounding to single precision (exact for constants)."""
  if T.is_num(x):
    return T._n(Fraction(float(np.float32(float(x)))))
  a = np.empty((), dtype=object)
  a[()] = x
  key = _memo_key('rounded', a)
  if key in ctx.memo:
    return ctx.memo[key].outs[0][()]
  y = ctx.fresh('rnd', ())
  app = App('rounded', a, [y], [], [], lambda v: [np.asarray(float(np.float32(float(v))))])
  # rounding a rounded value again changes nothing
  b = np.empty((), dtype=object)
  b[()] = y[()]
  ctx.memo[_memo_key('rounded', b)] = app
  return _reg(ctx, key, app).outs[0][()]


def draw(ctx, shape, kind, key=None, op=None):
  """Independent standard draws; the same key gives the same stream."""
  ctx.calls += 1
  n = int(np.prod(shape, dtype=int))
  if key is None:
    z = ctx.fresh('z' + kind, (n,))
  else:
    z = np.empty((n,), dtype=object)
    for i in range(n):
      z[i] = T.var('z%s_%s_%d' % (kind, '_'.join(map(str, key)), i))
  z = z.reshape(shape)
  ctx.draws.append((kind, z, op))
  return z


# ------------------------------------------------------- opaque functions

def canonical(x):
  """A key that is equal for arguments that are equal as polynomials."""
  from engine import poly
  if not isinstance(x, Term):
    return ('num', x)
  ids = {u.id: u.id for u in T.postorder([x]) if u.op in ('var', 'log')}
  try:
    p = poly.Ring(ids).expand(x)
  except (Unsupported, poly.TooBig):
    return ('term', x.id)
  return ('poly', tuple(sorted(p.items())))


def opaque(ctx, name, x, numeric):
  """name(x) for an array x, about which only f(x) = f(x) is known."""
  x = np.asarray(x, dtype=object)
  key = ('opaque', name, x.shape, tuple(canonical(v) for v in x.reshape(-1)))
  if key in ctx.memo:
    return ctx.memo[key].outs[0]
  app = App('opaque ' + name, x, [ctx.fresh(name, x.shape)], [], [], lambda v: [numeric(v)])
  ctx.memo[key] = app
  ctx.apps.append(app)
  return app.outs[0]
