"""C21: moments of the random initialisers.

Normal draws are independent symbols.  Every core entry has to be an affine
function of a draw of its own; the moments of a dense element follow exactly
from the entrywise moments of the cores, since the entries are independent.
"""
import time
from fractions import Fraction
import numpy as np
import tensorflow as tf
import t3f
from engine import contracts
from engine import decide
from engine import harness
from engine import interp
from engine import poly
from engine import terms as T
from engine.harness import Case
from engine.sym import Dense, ETT, prod
from engine.terms import Term, Unsupported
from engine.z3conv import Conv, z3

# mean and variance of one draw (truncated normal: at two deviations)
MOMENTS = {'n': (0, 1), 'u': (Fraction(1, 2), Fraction(1, 12)), 't': (0, Fraction(7737413, 10000000))}


def kron(a, b):
  out = np.empty((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]), dtype=object)
  for i, j in np.ndindex(*a.shape):
    for k, l in np.ndindex(*b.shape):
      out[i * b.shape[0] + k, j * b.shape[1] + l] = (a[i, j], b[k, l], (i, j) == (k, l))
  return out


class Moments(object):
  """make(sd, mean) builds the object; None stands for a fixed number."""

  def __init__(self, name, make, modes, cols=None, batch=None, ranks=None, dtype='float64',
               var=None, mean=0, of='elements', symbolic=(), tol=1e-6):
    self.name = name
    self.of = of
    self.var = var             # f(sd) -> variance
    self.mean = mean           # number or 'mean' (the symbolic one)
    self.symbolic = symbolic
    self.tol = tol
    args = [Dense(s, (), dtype) for s in symbolic]
    self.case = Case(name, args, make, lambda *a: ETT(None, modes, cols, batch, dtype=dtype, ranks=ranks),
                     meta=cols is None or prod(modes) * prod(cols) < 2 ** 31,
                     stochastic=True, timeout=30)

  # ------------------------------------------------------------------ run
  def run(self, seed):
    res = harness.Result(self.name)
    t0 = time.time()
    try:
      self._run(res)
    except Unsupported as e:
      res.status, res.detail = 'undecided', 'unsupported: %s' % e
    except Exception as e:
      res.status, res.detail = 'undecided', 'engine: %s: %s' % (type(e).__name__, str(e)[:300])
    if res.status == 'undecided':
      self._search(res)
    res.wall = time.time() - t0
    return res

  def _search(self, res, n=300):
    """Nothing decided: look for a gross deviation in runs of the real code."""
    try:
      x = self._runs(n)
      v = float(self.var(T.norm_num(2))) if self.symbolic else float(self.var(None))
      m = 0.5 if self.mean == 'mean' else float(self.mean)
      per = (x * x).mean(axis=1)
      err = per.std() / np.sqrt(n)
      res.replays += n
      if abs(per.mean() - v - m * m) > max(10 * err, 0.2 * (v + m * m)):
        res.status, res.mode, res.values = 'violation', 'eager', []
        res.detail = 'second moment %.5g over %d runs, expected %.5g [%s]' % (per.mean(), n, v + m * m, res.detail)
    except Exception as e:
      res.detail += ' | runs: %s: %s' % (type(e).__name__, str(e)[:200])

  def _run(self, res):
    T.reset()
    case = self.case
    try:
      tr = harness.trace(case)
    except Exception as e:
      msg = '%s: %s' % (type(e).__name__, str(e).split('\n')[0][:200])
      if self.symbolic:
        # only plain numbers are documented
        res.status, res.detail = 'proved', 'parameters given as tensors are not supported: ' + msg
        return
      try:
        case.prog()
      except Exception as e2:
        res.status, res.mode, res.values = 'violation', 'eager', []
        res.detail = 'raises %s: %s' % (type(e2).__name__, str(e2)[:200])
        return
      raise Unsupported('cannot be traced: ' + msg)
    res.functions = tr.functions
    res.witness = 1
    syms = harness.all_symbols(case)
    ctx = contracts.Ctx()
    ctx.wide = case.is_wide()
    flat = interp.run_graph(ctx, tr.cf.graph, list(syms), tr.cf.graph.outputs)
    res.nops, res.op_types, res.contracts = ctx.nops, sorted(ctx.op_types), len(ctx.apps)
    out = harness.regroup(tr.layout, flat)[0]
    n, bad = harness.structure(case, [out], harness.as_list(case.spec(*[s[()] for s in syms])))
    res.structural = n
    if bad:
      self._violated(res, tr, ctx, syms, flat, '; '.join(bad[:3]))
      return
    par = {s.args[0]: s for a in syms for s in [a[()]]}
    conds = [T.lt(0, p) for k, p in par.items() if k == 'sd']
    bad = self._entries(res, ctx, out, conds) or self._dense(res, ctx, out, par, conds)
    if bad:
      self._violated(res, tr, ctx, syms, flat, bad)
      return
    # the encoding agrees with a real run for the draws of that run
    d = self._real(tr, ctx, syms, flat)
    if d:
      raise Unsupported('encoding and real run differ: ' + d)
    res.tv_points += 1
    res.replays += 1
    res.status = 'proved'

  def _entries(self, res, ctx, out, conds):
    """Each entry is a + b z with a draw z of its own."""
    kinds = {}
    for kind, z, _ in ctx.draws:
      for v in z.reshape(-1):
        kinds[v] = kind
    used, claims = set(), []
    self.law = {}
    for k, core in enumerate(out.cores):
      core = interp.as_obj(core)
      for i in np.ndindex(*core.shape):
        e = core[i]
        zs = [v for v in T.variables([e]) if v in kinds] if isinstance(e, Term) else []
        if len(zs) > 1:
          raise Unsupported('an entry depends on several draws')
        for z in zs:
          if z in used:
            return 'core %d entry %s shares its draw with another entry' % (k, list(i))
          used.add(z)
        if not zs:
          self.law[k, i] = (e, 0)
          continue
        z = zs[0]
        a = T.substitute([e], {z: 0})[0]
        b = T.add(T.substitute([e], {z: 1})[0], T.neg(a))
        claims.append(T.eq(e, T.add(a, T.mul(b, z))))
        m, v = MOMENTS[kinds[z]]
        self.law[k, i] = (T.add(a, T.mul(m, b)), T.mul(v, T.mul(b, b)))
    res.claims += len(claims)
    conv = Conv()
    todo = [conv(c) for c in claims if c is not True]
    if todo:
      r, _ = decide.solve(res.stats, [z3.Not(z3.And(todo))], self.case.timeout)
      if r != 'unsat':
        raise Unsupported('core entries are not affine in the draws (%s)' % r)
    return None

  def _facts(self, ctx, conds):
    conv = Conv()
    cons = [conv(c) for c in conds]
    for a in ctx.apps:
      cons += [conv(T.eq(l, r)) for _, l, r in a.eqs] + [conv(c) for c in a.conds]
    return conv, cons

  def _close(self, x, ref, scale):
    """|x - ref| <= tol * scale as a term (or a truth value)."""
    d = T.add(x, T.neg(ref))
    t = T.mul(Fraction(str(self.tol)), scale)
    return T.and_(T.le(d, t), T.le(T.neg(t), d))

  def _dense(self, res, ctx, out, par, conds):
    sd = par.get('sd')
    want_v = self.var(sd) if sd is not None else self.var(None)
    want_m = par['mean'] if self.mean == 'mean' else T.norm_num(self.mean)
    goals = {}
    if self.of == 'cores':
      for key, (m, v) in self.law.items():
        goals[(m, v)] = 'core %d entry %s' % (key[0], list(key[1]))
    else:
      ring = poly.Ring({v.id: n for n, v in enumerate(
          sorted(T.variables([x for mv in self.law.values() for x in mv if isinstance(x, Term)]), key=lambda v: v.id))})
      back = {n: v for n, v in enumerate(
          sorted(T.variables([x for mv in self.law.values() for x in mv if isinstance(x, Term)]), key=lambda v: v.id))}
      for name, m, s in self._elements(out, ring):
        m, s = [self._term(p, back) for p in (m, s)]
        goals[(m, T.add(s, T.neg(T.mul(m, m))))] = name
    res.claims += 2 * len(goals)
    conv, cons = self._facts(ctx, conds)
    scale = T.add(want_v, 0) if not T.is_num(want_v) or want_v else 1
    for (m, v), name in goals.items():
      for what, x, ref, sc in (('mean', m, want_m, T.add(scale, 1) if not T.is_num(scale) else max(1, scale)),
                               ('variance', v, want_v, scale)):
        if what == 'mean' and not T.is_num(ref):
          ok = T.eq(x, ref)
        else:
          ok = self._close(x, ref, sc)
        r, model = decide.solve(res.stats, cons + [z3.Not(conv(ok) if isinstance(ok, Term) else z3.BoolVal(bool(ok)))],
                                self.case.timeout)
        if r == 'sat':
          res.sat_claims += 1
          got = decide.model_value(model, conv(x)) if isinstance(x, Term) else x
          exp = decide.model_value(model, conv(ref)) if isinstance(ref, Term) else ref
          return '%s of %s is %.8g, requested %.8g' % (what, name, float(got), float(exp))
        if r != 'unsat':
          raise Unsupported('%s of %s: solver says %s' % (what, name, r))
    return None

  def _term(self, p, back):
    out = []
    for mono, c in p.items():
      t = T._n(Fraction(c))
      for v in mono:
        t = T.mul(t, back[v])
      out.append(t)
    return T.nsum(out) if out else 0

  def _elements(self, out, ring):
    """(name, E[x], E[x^2]) of dense elements; equal ones only once."""
    v = out.val()
    for b in ([None] if v.batch is None else range(v.batch)):
      # slices of a core that have the same moments give the same result
      per = []
      for k, c in enumerate(out.cores):
        seen = {}
        c = np.asarray(c)
        lead = () if b is None else (b,)
        mid = c.shape[len(lead) + 1:-1]
        for i in np.ndindex(*mid):
          idx = np.empty((c.shape[len(lead)], c.shape[-1]), dtype=object)
          for p, q in np.ndindex(*idx.shape):
            idx[p, q] = lead + (p,) + i + (q,)
          key = tuple(self.law[k, j] for j in idx.reshape(-1))
          key = tuple((x.id if isinstance(x, Term) else x, y.id if isinstance(y, Term) else y) for x, y in key)
          seen.setdefault(key, (i, k, idx))
        per.append(list(seen.values()))
      if prod(len(p) for p in per) > 64:
        raise Unsupported('core entries follow too many laws')
      for pick in _product(per):
        yield ('element %s%s' % ([list(p[0]) for p in pick], '' if b is None else ' of batch entry %d' % b),
               self._chain(pick, ring, False), self._chain(pick, ring, True))

  def _chain(self, pick, ring, second):
    """Product of expected slices; squared elements need E[G x G]."""
    vec = None
    for _, k, idx in pick:
      if second:
        pairs = kron(idx, idx)
        mat = np.empty(pairs.shape, dtype=object)
        for i in np.ndindex(*pairs.shape):
          p, q, eq = pairs[i]
          (m1, v1), (m2, _) = self.law[k, p], self.law[k, q]
          t = T.mul(m1, m2)
          mat[i] = ring.expand(T.add(t, v1) if p == q else t)
      else:
        mat = np.empty(idx.shape, dtype=object)
        for i in np.ndindex(*idx.shape):
          mat[i] = ring.expand(self.law[k, idx[i]][0])
      if vec is None:
        vec = [mat[0, j] for j in range(mat.shape[1])]
        continue
      new = []
      for j in range(mat.shape[1]):
        acc = {}
        for i in range(mat.shape[0]):
          if vec[i] and mat[i, j]:
            poly.padd(acc, poly.pmul(vec[i], mat[i, j]))
        new.append(acc)
      vec = new
    return vec[0]

  # --------------------------------------------------------------- replay
  def _session(self, tr, ctx, syms, point):
    feeds = {p.name: float(x) for p, x in zip(tr.cf.graph.inputs, point)}
    with tf.compat.v1.Session(graph=tr.cf.graph) as s:
      return s.run([list(tr.cf.graph.outputs), [o.outputs[0] for _, _, o in ctx.draws]], feeds)

  def _real(self, tr, ctx, syms, flat):
    """Compare one real run with the encoding at the draws of that run."""
    if any(o.graph is not tr.cf.graph for _, _, o in ctx.draws):
      return ''
    point = [2.0, 0.5][:len(syms)]
    outs, draws = self._session(tr, ctx, syms, point)
    env = {s[()]: p for s, p in zip(syms, point)}
    for (_, z, _), v in zip(ctx.draws, draws):
      for t, x in zip(z.reshape(-1), np.asarray(v).reshape(-1)):
        env[t] = float(x)
    ctx.env_extend(env)
    for k, (s, r) in enumerate(zip(flat, outs)):
      e = np.array([float(x) for x in T.evaluate(list(s.reshape(-1)), env)]).reshape(s.shape)
      if e.shape != r.shape or (e.size and np.max(np.abs(e - r)) > 1e-4 * (1 + np.max(np.abs(r)))):
        return 'value %d' % k
    return ''

  def _runs(self, n):
    a = [tf.constant(v, s.dtype) for v, s in zip([2.0, 0.5], self.case.args)]
    xs = []
    for _ in range(n):
      o = self.case.prog(*a)
      if self.of == 'cores':
        xs.append(np.concatenate([c.numpy().reshape(-1) for c in o.tt_cores]))
      else:
        xs.append(t3f.full(o).numpy().reshape(-1))
    return np.stack(xs).astype(float)

  def _sample(self, n=400):
    """Mean and variance over runs of the real code."""
    x = self._runs(n)
    return 'sample over %d runs: mean %.4g, variance %.4g' % (n, x.mean(), x.var())

  def _violated(self, res, tr, ctx, syms, flat, msg):
    res.replays += 1
    d = self._real(tr, ctx, syms, flat)
    if d:
      res.status, res.detail = 'spurious', msg
      return
    try:
      s = self._sample(60)
    except Exception as e:
      s = 'raises %s' % type(e).__name__
    res.status, res.mode, res.values = 'violation', 'graph', []
    res.detail = '%s (%s)' % (msg, s)

  def replay(self, d):
    """For --replay: decide again and show a sample of the real code."""
    r = self.run(1)
    if r.status != 'violation':
      return ''
    return '%s; %s' % (r.detail, self._sample())


def _product(per):
  import itertools
  return itertools.product(*per)


def dt(d):
  return getattr(tf, d)


def full_ranks(d, r):
  return (1,) + (r,) * (d - 1) + (1,) if isinstance(r, int) else tuple(r)


def square(x):
  return T.norm_num(x) ** 2 if not isinstance(x, Term) else T.mul(x, x)


def frac(x):
  return Fraction(repr(x)) if isinstance(x, float) else Fraction(x)


def elements(kind, shape, rank, sd, batch=None, dtype='float64', given=None):
  """random_tensor, random_matrix and their batches."""
  mat = kind == 'matrix'
  modes, cols = (tuple(shape[0]), tuple(shape[1])) if mat else (tuple(shape), None)
  arg = given if given is not None else [list(s) for s in shape] if mat else list(shape)
  f = getattr(t3f, 'random_' + kind + ('' if batch is None else '_batch'))
  kw = {'dtype': dt(dtype)}
  if batch is not None:
    kw['batch_size'] = batch
  if rank is not None:
    kw['tt_rank'] = rank
  sym_sd = sd == 'any'
  if sd is not None and not sym_sd:
    kw['stddev'] = sd
  make = (lambda s: f(arg, stddev=s, **kw)) if sym_sd else (lambda: f(arg, **kw))
  var = (lambda s: T.mul(s, s)) if sym_sd else (lambda s: frac(1 if sd is None else sd) ** 2)
  return Moments('random_%s %s rank %s stddev %s batch %s %s' % (kind, text(arg), rank, sd, batch, dtype), make, modes, cols, batch,
                 full_ranks(len(modes), 2 if rank is None else rank), dtype, var,
                 symbolic=('sd',) if sym_sd else (), tol=1e-6 if dtype == 'float64' else 1e-4)


def text(x):
  s = ' '.join(repr(x).split())
  return s if len(s) < 60 else '%s...(%d)' % (s[:40], len(s))


def named(kind, shape, rank, dtype='float64', given=None):
  modes, cols = tuple(shape[0]), tuple(shape[1])
  f = getattr(t3f, kind + '_initializer')
  n_in, n_out = prod(modes), prod(cols)
  v = {'glorot': Fraction(2, n_in + n_out), 'he': Fraction(2, n_in), 'lecun': Fraction(1, n_in)}[kind]
  kw = {'dtype': dt(dtype)}
  if rank is not None:
    kw['tt_rank'] = rank
  arg = given if given is not None else [list(modes), list(cols)]
  return Moments('%s %s rank %s %s' % (kind, text(arg), rank, dtype), lambda: f(arg, **kw), modes, cols, None,
                 full_ranks(len(modes), 2 if rank is None else rank), dtype, lambda s: v,
                 tol=1e-6 if dtype == 'float64' else 1e-4)


def cores(kind, shape, rank, sd, mean, batch=None, dtype='float64', given=None):
  mat = kind == 'matrix'
  modes, cols = (tuple(shape[0]), tuple(shape[1])) if mat else (tuple(shape), None)
  arg = given if given is not None else [list(s) for s in shape] if mat else list(shape)
  f = getattr(t3f, kind + ('' if batch is None else '_batch') + '_with_random_cores')
  kw = {'dtype': dt(dtype)}
  if batch is not None:
    kw['batch_size'] = batch
  if rank is not None:
    kw['tt_rank'] = rank
  anyp = sd == 'any'
  if anyp:
    make = lambda s, m: f(arg, stddev=s, mean=m, **kw)
    var = lambda s: T.mul(s, s)
  else:
    if sd is not None:
      kw.update(stddev=sd, mean=mean)
    make = lambda: f(arg, **kw)
    var = lambda s: frac(1 if sd is None else sd) ** 2
  return Moments('%s cores %s rank %s stddev %s mean %s batch %s %s' % (kind, text(arg), rank, sd, mean, batch, dtype), make,
                 modes, cols, batch, full_ranks(len(modes), 2 if rank is None else rank), dtype, var,
                 'mean' if anyp else frac(mean or 0), 'cores', ('sd', 'mean') if anyp else (),
                 1e-6 if dtype == 'float64' else 1e-4)


def rejected(name, f, kind=(ValueError,)):
  return Case('rejects ' + name, [], f, raises=kind)


def cases(tier):
  out = []
  more = tier == 'thorough'
  shapes = [((3,), None), ((2, 3), 3), ((3, 1), (1, 4, 1)), ((2, 3, 2), (1, 2, 3, 1)), ((2, 1, 3, 2), (1, 2, 5, 3, 1)),
            ((2, 3, 4), 1), ((2, 2, 2, 3, 2), 2), ((4, 3), None)]
  if more:
    shapes += [((5, 4, 3), (1, 5, 3, 1)), ((2,) * 6, (1, 2, 3, 4, 3, 2, 1)), ((2,) * 8, 3), ((9, 7), 7), ((2,) * 40, 2)]
  for s, r in shapes:
    for b in (None, 1, 3):
      for d in ('float64', 'float32'):
        if len(s) > 8 and b is not None:
          continue
        sds = (None, 0.5, 3, 10.0, 1e-3) if b is None else (None, 0.25)
        for sd in sds:
          out.append(elements('tensor', s, r, sd, b, d))
        out.append(cores('tensor', s, r, None, None, b, d))
        out.append(cores('tensor', s, r, 0.5, 2.0, b, d))
        out.append(cores('tensor', s, r, 3.0, -1, b, d))
      out.append(elements('tensor', s, r, 'any', b))
      out.append(cores('tensor', s, r, 'any', 'any', b))
  mats = [(((3,), (2,)), None), (((2, 3), (3, 2)), 2), (((2, 2), (1, 3)), (1, 3, 1)),
          (((2, 1, 3), (1, 2, 2)), (1, 2, 3, 1)), (((2, 1, 2, 2), (2, 3, 1, 1)), (1, 2, 1, 3, 1))]
  if more:
    mats += [(((4, 3), (2, 5)), 6), (((2,) * 6, (1, 2) * 3), 2), (((2,) * 40, (2,) * 40), 2)]
  for s, r in mats:
    for b in (None, 1, 3):
      for d in ('float64', 'float32'):
        if len(s[0]) > 8 and b is not None:
          continue
        for sd in ((None, 0.5, 3) if b is None else (None, 2.0)):
          out.append(elements('matrix', s, r, sd, b, d))
        out.append(cores('matrix', s, r, None, None, b, d))
        out.append(cores('matrix', s, r, 0.5, 2.0, b, d))
      out.append(elements('matrix', s, r, 'any', b))
      out.append(cores('matrix', s, r, 'any', 'any', b))
    for kind in ('glorot', 'he', 'lecun'):
      for d in ('float64', 'float32'):
        out.append(named(kind, s, r, d))
  for kind in ('glorot', 'he', 'lecun'):
    out += [named(kind, ((2, 3, 2), (1, 1, 1)), 2, given=[[2, 3, 2], None]),
            named(kind, ((1, 1, 1), (2, 3, 2)), (1, 3, 2, 1), given=[None, [2, 3, 2]]),
            named(kind, ((2,) * 64, (2,) * 64), 1), named(kind, ((2,) * 20, (1,) * 20), 2)]
  for b in (None, 2):
    out += [elements('matrix', ((2, 3), (1, 1)), 3, 0.5, b, given=[[2, 3], None]),
            elements('matrix', ((1, 1), (2, 3)), 3, 0.5, b, given=(None, (2, 3))),
            elements('tensor', (2, 3), (1, 2, 1), 0.5, b, given=np.array([2, 3])),
            cores('matrix', ((2, 3), (1, 1)), 3, 0.5, 1.0, b, given=[[2, 3], None]),
            cores('matrix', ((1, 1), (2, 3)), (1, 2, 1), 0.5, 1.0, b, given=[None, (2, 3)])]
  tens = [('random_tensor', t3f.random_tensor), ('random_tensor_batch', t3f.random_tensor_batch),
          ('tensor_with_random_cores', t3f.tensor_with_random_cores),
          ('tensor_batch_with_random_cores', t3f.tensor_batch_with_random_cores)]
  for n, f in tens:
    for s, r in (([2, 0], 2), ([2, -1], 2), ([[2, 2]], 2), ([2, 2.5], 2), ([2, 3], 0), ([2, 3], -1), ([2, 3], 1.5),
                 ([2, 3], [1, 2]), ([2, 3], [1, 2, 2, 1]), ([2, 3], [1, 0, 1]), ([2, 3], [2, 2, 1]), ([2, 3], [1, 2, 2]),
                 ([2, 3], [1, 2.5, 1]), ([], 2)):
      out.append(rejected('%s %r rank %r' % (n, s, r), lambda f=f, s=s, r=r: f(s, r)))
    if 'batch' in n:
      for b in (0, -2, 1.5):
        out.append(rejected('%s batch %r' % (n, b), lambda f=f, b=b: f([2, 3], 2, b)))
  mat_f = [(n, getattr(t3f, n)) for n in ('random_matrix', 'random_matrix_batch', 'matrix_with_random_cores',
                                          'matrix_batch_with_random_cores', 'glorot_initializer', 'he_initializer',
                                          'lecun_initializer')]
  for n, f in mat_f:
    for s, r in (([[2, 0], [1, 1]], 2), ([[2, 2], [1, -1]], 2), ([[2, 2], [1]], 2), ([2, 3, 4], 2), ([[2.5, 2], [2, 2]], 2),
                 ([[2, 3], [3, 2]], 0), ([[2, 3], [3, 2]], [1, 2]), ([[2, 3], [3, 2]], [2, 2, 1]),
                 ([[2, 3], [3, 2]], [1, 2, 3]), ([[2, 3], [3, 2]], 1.5), ([[2, 3], [3, 2]], [1, -1, 1]), ([[], []], 2)):
      out.append(rejected('%s %r rank %r' % (n, s, r), lambda f=f, s=s, r=r: f(s, r)))
    if 'batch' in n:
      for b in (0, -2, 1.5):
        out.append(rejected('%s batch %r' % (n, b), lambda f=f, b=b: f([[2, 3], [3, 2]], 2, b)))
  for n in ('random_tensor', 'random_tensor_batch'):
    f = getattr(t3f, n)
    out.append(rejected('%s with a mean' % n, lambda f=f: f([2, 3], 2, mean=1.0), (NotImplementedError,)))
  for n in ('random_matrix', 'random_matrix_batch'):
    f = getattr(t3f, n)
    out.append(rejected('%s with a mean' % n, lambda f=f: f([[2, 3], [1, 2]], 2, mean=1.0), (NotImplementedError,)))
  return out
