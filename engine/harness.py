"""One case: trace the real code, encode it, decide the claims, replay."""
import os
import random
import sys
import time
import traceback
from fractions import Fraction
import numpy as np
import tensorflow as tf
import t3f

from engine import terms as T
from engine import interp
from engine import contracts
from engine import aligned
from engine import decide
from engine import sym
from engine.terms import Term, Unsupported

REPO = os.environ.get('T3F_REPO', '/repo')


class Case(object):
  """prog runs library code on the arguments, spec gives the dense answer.

  prog(*objects) -> output or list of outputs (tensors, TT objects)
  spec(*views)   -> expected output(s): arrays, sym.ETT, None (only metadata)
  check(S, views, outs) -> further claims [(name, out, ref[, 'bool'])]
  Both spec and check work on symbolic and on numeric arrays.
  """

  def __init__(self, name, args, prog, spec=None, check=None, assume=None,
               full_rank=False, extra=None, tol=None, raises=False, timeout=60,
               sample=None, asserts=True, eager=True, tv=True, meta=False,
               state=None, stochastic=False, graph_only=False, wide=None,
               points=(), numeric=None, setup=None, autograph=False, good=None):
    self.name = name
    self.args = args
    self.prog = prog
    self.spec = spec
    self.check = check
    self.assume = assume          # views -> list of boolean terms
    self.full_rank = full_rank
    self.extra = extra            # (S, views, outs) -> [(tag, lhs, rhs)]
    self.tol = tol
    self.raises = raises
    self.timeout = timeout
    self.sample = sample          # rnd -> list of numeric arrays (flat)
    self.asserts = asserts
    self.eager = eager
    self.tv = tv
    self.meta = meta
    self.stochastic = stochastic
    self.graph_only = graph_only  # claim is about graph execution
    self.wide = wide
    self.points = points          # extra replay points: fn(rnd, case) -> values
    self.numeric = numeric        # numeric(values views, outs) -> [(name, out, ref)]
    self.setup = setup            # () -> object passed first to prog/spec/check
    self.autograph = autograph
    self.good = good              # numeric views -> well-conditioned point

  def is_wide(self):
    if self.wide is not None:
      return self.wide
    fl = [a.dtype for a in self.args if a.dtype.startswith('float')]
    return bool(fl) and all(x == 'float64' for x in fl)

  def tolerance(self):
    if self.tol is not None:
      return self.tol
    fl = [a.dtype for a in self.args]
    return 3e-4 if 'float32' in fl else 1e-9


class Result(object):

  def __init__(self, case):
    self.case = case
    self.status = 'error'     # proved | violation | undecided | spurious
    self.detail = ''
    self.values = None
    self.mode = ''
    self.claims = 0
    self.structural = 0
    self.stats = decide.Stats()
    self.nops = 0
    self.op_types = []
    self.functions = []
    self.tv_points = 0
    self.witness = 0
    self.wall = 0.0
    self.contracts = 0
    self.replays = 0
    self.sat_claims = 0

  def as_dict(self):
    d = {k: v for k, v in self.__dict__.items() if k not in ('case', 'stats', 'values')}
    d['case'] = self.case
    d['stats'] = dict(self.stats.__dict__)
    if self.values is not None:
      d['values'] = [_tolist(v) for v in self.values]
    return d


def _tolist(v):
  v = np.asarray(v)
  if v.dtype == object:
    v = v.astype(float)
  return v.tolist()


class S(object):
  """What claims may need besides the values."""

  def __init__(self, symbolic, ctx=None):
    self.symbolic = symbolic
    self.ctx = ctx


# ---------------------------------------------------------------- real code

class Out(object):
  """A TT output: cores plus what the object says about itself."""

  def __init__(self, meta, cores):
    self.meta = meta
    self.cores = cores

  def val(self):
    """TTVal of the cores as they are."""
    b = None
    if self.meta['batchobj']:
      b = self.cores[0].shape[0]
    return sym.TTVal(self.cores, self.meta['matrix'], b)

  def dense(self):
    return self.val().dense()


def _meta(x):
  m = {'batchobj': isinstance(x, t3f.TensorTrainBatch), 'matrix': x.is_tt_matrix(),
       'ndims': x.ndims(), 'dtype': x.dtype.name,
       'raw': [list(s.as_list()) for s in x.get_raw_shape()],
       'ranks': list(x.get_tt_ranks().as_list())}
  try:
    m['shape'] = list(x.get_shape().as_list())
  except Exception as e:
    m['shape'] = None
    m['shape_error'] = '%s: %s' % (type(e).__name__, e)
  m['batch'] = x.batch_size if m['batchobj'] else None
  if m['batch'] is not None:
    m['batch'] = int(m['batch'])
  return m


def flatten(outs, meta):
  """-> (layout, flat list of tensors)."""
  layout, flat = [], []
  for o in outs:
    if isinstance(o, (t3f.TensorTrain, t3f.TensorTrainBatch)):
      m = _meta(o)
      cores = list(o.tt_cores)
      extra = []
      if meta:
        extra = [t3f.shape(o), t3f.raw_shape(o), t3f.tt_ranks(o)]
        if m['batchobj']:
          extra.append(t3f.batch_size(o))
      layout.append(('tt', m, len(cores), len(extra)))
      flat += [tf.convert_to_tensor(c) for c in cores] + [tf.convert_to_tensor(e) for e in extra]
    else:
      t = tf.convert_to_tensor(o)
      layout.append(('t', t.dtype.name, 1, 0))
      flat.append(t)
  return layout, flat


def regroup(layout, flat):
  out, i = [], 0
  for kind, m, n, k in layout:
    if kind == 'tt':
      o = Out(m, flat[i:i + n])
      o.runtime = flat[i + n:i + n + k]
      out.append(o)
    else:
      out.append(flat[i])
    i += n + k
  return out


def as_list(x):
  if isinstance(x, (list, tuple)):
    return list(x)
  return [x]


def build_args(case, tensors):
  objs, i = [], 0
  for a in case.args:
    n = len(a.specs())
    objs.append(a.build(tensors[i:i + n]))
    i += n
  return objs


def views(case, arrays):
  out, i = [], 0
  for a in case.args:
    n = len(a.specs())
    out.append(a.view(arrays[i:i + n]))
    i += n
  return out


class Traced(object):
  pass


def trace(case, obj=None):
  """Concrete graph function of prog, from the current source."""
  tr = Traced()
  tr.layout = None
  specs = [s for a in case.args for s in a.specs()]
  funcs = set()

  def body(*tensors):
    objs = build_args(case, tensors)
    if obj is not None:
      objs = [obj] + objs
    outs = as_list(case.prog(*objs))
    tr.layout, flat = flatten(outs, case.meta)
    return flat

  def prof(frame, event, arg):
    if event == 'call':
      c = frame.f_code
      if c.co_filename.startswith(REPO + '/t3f/'):
        funcs.add('%s:%s' % (os.path.basename(c.co_filename)[:-3], c.co_name))

  sys.setprofile(prof)
  try:
    cf = tf.function(body, autograph=case.autograph).get_concrete_function(*specs)
  finally:
    sys.setprofile(None)
  tr.cf = cf
  tr.functions = sorted(f for f in funcs if '<' not in f)
  return tr


def cast_values(case, values):
  specs = [s for a in case.args for s in a.specs()]
  out = []
  for s, v in zip(specs, values):
    v = np.asarray(v)
    if v.dtype == object:
      v = np.array([float(x) if s.dtype.is_floating else int(x) for x in v.reshape(-1)]).reshape(v.shape)
    out.append(v.astype(s.dtype.as_numpy_dtype))
  return out


def run_eager(case, values, obj=None):
  tensors = [tf.constant(v) for v in cast_values(case, values)]
  objs = build_args(case, tensors)
  if obj is not None:
    objs = [obj] + objs
  outs = as_list(case.prog(*objs))
  layout, flat = flatten(outs, case.meta)
  return layout, [np.asarray(t.numpy()) for t in flat]


def run_traced(case, tr, values):
  tensors = [tf.constant(v) for v in cast_values(case, values)]
  outs = tr.cf(*tensors)
  outs = list(outs) if isinstance(outs, (list, tuple)) else [outs]
  return tr.layout, [np.asarray(t.numpy()) for t in outs]


# ------------------------------------------------------------------- claims

def structure(case, outs, expected):
  """Shape and metadata disagreements; -> (number checked, [messages])."""
  bad, n = [], 0

  def need(cond, msg):
    nonlocal n
    n += 1
    if not cond:
      bad.append(msg)

  for k, o in enumerate(outs):
    e = expected[k] if expected is not None else None
    if isinstance(o, Out):
      m = o.meta
      off = 1 if m['batchobj'] else 0
      nd = off + (4 if m['matrix'] else 3)
      ok = all(c.ndim == nd for c in o.cores)
      need(ok, 'output %d: cores with %s axes' % (k, [c.ndim for c in o.cores]))
      if not ok:
        continue
      sh = [c.shape for c in o.cores]
      need(len(sh) == m['ndims'], 'output %d: number of cores' % k)
      r = [s[off] for s in sh] + [sh[-1][-1]]
      need(r[0] == 1 and r[-1] == 1, 'output %d: boundary ranks %s' % (k, r))
      chained = all(sh[i][-1] == sh[i + 1][off] for i in range(len(sh) - 1))
      need(chained, 'output %d: ranks of neighbouring cores differ %s' % (k, sh))
      need(len(m['ranks']) == len(r) and all(x is None or x == y for x, y in zip(m['ranks'], r)),
           'output %d: reported ranks %s, actual %s' % (k, m['ranks'], r))
      modes = [s[off + 1] for s in sh]
      raw = [modes] + ([[s[off + 2] for s in sh]] if m['matrix'] else [])
      need(_fits(m['raw'], raw), 'output %d: reported mode shape %s, actual %s' % (k, m['raw'], raw))
      full = [sym.prod(x) for x in raw] if m['matrix'] else list(modes)
      if m['batchobj']:
        b = [s[0] for s in sh]
        need(len(set(b)) == 1, 'output %d: batch sizes of cores differ %s' % (k, b))
        need(m['batch'] is None or m['batch'] == b[0],
             'output %d: reported batch size %s, actual %s' % (k, m['batch'], b[0]))
        full = [b[0]] + full
      unk = any(getattr(a, 'unknown', None) for a in case.args)
      if m['shape'] is None:
        need(unk, 'output %d: get_shape fails: %s' % (k, m.get('shape_error')))
      else:
        need(_fits([m['shape']], [full]), 'output %d: reported shape %s, actual %s' % (k, m['shape'], full))
      need(all(_dt(c) in (None, m['dtype']) for c in o.cores), 'output %d: dtype %s of cores' % (k, m['dtype']))
      if case.meta and o.runtime:
        vals = [np.asarray(v) for v in o.runtime]
        try:
          vals = [interp.conc(v) for v in vals]
          need(vals[0].tolist() == full, 'output %d: run-time shape %s, actual %s' % (k, vals[0].tolist(), full))
          need(vals[1].tolist() == raw, 'output %d: run-time mode shape %s, actual %s' % (k, vals[1].tolist(), raw))
          need(vals[2].tolist() == r, 'output %d: run-time ranks %s, actual %s' % (k, vals[2].tolist(), r))
          if m['batchobj']:
            need(int(vals[3]) == full[0], 'output %d: run-time batch size %s, actual %s' % (k, vals[3], full[0]))
        except Unsupported:
          need(False, 'output %d: run-time sizes depend on values' % k)
      if isinstance(e, sym.ETT):
        need(m['matrix'] == (e.cols is not None), 'output %d: tensor/matrix kind' % k)
        need(m['batchobj'] == (e.batch is not None), 'output %d: %s instead of %s' % (
            k, 'batch' if m['batchobj'] else 'single object',
            'batch' if e.batch is not None else 'single object'))
        need(modes == list(e.modes), 'output %d: modes %s instead of %s' % (k, modes, e.modes))
        if e.cols is not None and m['matrix']:
          need(raw[1] == list(e.cols), 'output %d: column modes %s instead of %s' % (k, raw[1], e.cols))
        if e.batch is not None and m['batchobj']:
          need(full[0] == e.batch, 'output %d: batch size %s instead of %s' % (k, full[0], e.batch))
        if e.dtype is not None:
          need(m['dtype'] == e.dtype, 'output %d: dtype %s instead of %s' % (k, m['dtype'], e.dtype))
        if e.ranks is not None:
          need(tuple(r) == tuple(e.ranks), 'output %d: ranks %s instead of %s' % (k, r, e.ranks))
      elif e is not None:
        need(False, 'output %d: TT object where an array is expected' % k)
    elif isinstance(e, sym.ETT):
      need(False, 'output %d: array where a TT object is expected' % k)
    elif e is not None:
      need(np.asarray(o).shape == np.asarray(e).shape,
           'output %d: shape %s instead of %s' % (k, np.asarray(o).shape, np.asarray(e).shape))
  return n, bad


def dtype_failures(case, layout, expected):
  """Results have the element type of the arguments unless stated."""
  fl = {a.dtype for a in case.args if a.dtype.startswith('float')}
  if expected is None or len(fl) != 1:
    return []
  want = fl.pop()
  bad = []
  for k, ((kind, m, _, _), e) in enumerate(zip(layout, expected)):
    if e is None or (isinstance(e, sym.ETT) and e.dtype is not None):
      continue
    got = m['dtype'] if kind == 'tt' else m
    if got.startswith('float') and got != want:
      bad.append('output %d: dtype %s instead of %s' % (k, got, want))
  return bad


def _dt(c):
  # encoded whole numbers have no width
  return None if c.dtype in (object, np.int64) else c.dtype.name


def _fits(rep, act):
  if len(rep) != len(act):
    return False
  for p, q in zip(rep, act):
    if len(p) != len(q) or any(x is not None and x != y for x, y in zip(p, q)):
      return False
  return True


def value_claims(case, s, vs, outs, expected):
  """[(name, out array, ref array, rel)]."""
  cl = []
  if expected is not None:
    for k, (o, e) in enumerate(zip(outs, expected)):
      if e is None:
        continue
      if isinstance(e, sym.ETT):
        if e.dense is None:
          continue
        cl.append(('output%d' % k, o.dense(), np.asarray(e.dense), 'eq'))
      else:
        cl.append(('output%d' % k, np.asarray(o), np.asarray(e), 'eq'))
  if case.check is not None:
    for c in case.check(s, vs, outs):
      cl.append(tuple(c) if len(c) == 4 else tuple(c) + ('eq',))
  return cl


def numeric_failures(case, values, layout, flat, obj=None):
  """Compare one real run with the reference; -> list of messages."""
  vals = cast_values(case, values)
  arrays = [v.astype(np.float64) if v.dtype.kind == 'f' else v.astype(np.int64) for v in vals]
  vs = views(case, arrays)
  if obj is not None:
    vs = [obj] + vs
  outs = regroup(layout, flat)
  expected = None
  if case.spec is not None:
    expected = as_list(case.spec(*vs))
    if len(expected) != len(outs):
      return ['%d outputs instead of %d' % (len(outs), len(expected))]
  _, bad = structure(case, outs, expected)
  bad += dtype_failures(case, layout, expected)
  if bad:
    return bad
  outs64 = []
  for o in outs:
    if isinstance(o, Out):
      p = Out(o.meta, [np.asarray(c, dtype=np.float64) if c.dtype.kind == 'f' else c for c in o.cores])
      p.runtime = o.runtime
      outs64.append(p)
    else:
      outs64.append(np.asarray(o, dtype=np.float64) if o.dtype.kind == 'f' else o)
  cl = value_claims(case, S(False), vs, outs64, expected)
  if case.numeric is not None:
    for c in case.numeric(vs, outs64):
      cl.append(tuple(c) if len(c) == 4 else tuple(c) + ('eq',))
  tol = case.tolerance()
  for name, out, ref, rel in cl:
    out = np.asarray(out)
    if rel == 'bool':
      if not np.all(out.astype(bool)):
        bad.append('%s does not hold' % name)
      continue
    ref = np.asarray(ref)
    if out.shape != ref.shape:
      bad.append('%s: shape %s instead of %s' % (name, out.shape, ref.shape))
      continue
    out = out.astype(np.float64)
    ref = ref.astype(np.float64)
    if out.size == 0:
      continue
    scale = 1e-3 + np.max(np.abs(ref[np.isfinite(ref)])) if np.isfinite(ref).any() else 1.0
    if rel == 'le':
      diff = np.maximum(out - ref, 0)
    else:
      diff = np.abs(out - ref)
    diff = np.where(np.isnan(out) | np.isnan(ref), np.inf, diff)
    if np.max(diff) > tol * scale:
      i = np.unravel_index(np.argmax(diff), diff.shape)
      bad.append('%s%s = %.10g, expected %s%.10g' % (
          name, list(int(q) for q in i), out[i], '<= ' if rel == 'le' else '', ref[i]))
  return bad


# ------------------------------------------------------------------- points

def random_values(case, rnd, syms):
  """Numeric arrays for all inputs; fixed entries stay fixed."""
  if case.sample is not None:
    return case.sample(rnd)
  out, i = [], 0
  for a in case.args:
    n = len(a.specs())
    for k in range(n):
      s = syms[i]
      v = np.empty(s.shape, dtype=object)
      for j in np.ndindex(*s.shape):
        t = s[j]
        if not isinstance(t, Term):
          v[j] = t
        elif isinstance(a, sym.Dense) and a.is_int:
          v[j] = a.sample(rnd, j) if a.lo is not None else rnd.randrange(-3, 4)
        else:
          c = 0
          while c == 0:
            c = rnd.randrange(-9, 10)
          v[j] = Fraction(c, 4)
      out.append(v)
      i += 1
  return out


def env_of(syms, values):
  env = {}
  for s, v in zip(syms, values):
    v = np.asarray(v)
    for t, x in zip(s.reshape(-1), v.reshape(-1)):
      if isinstance(t, Term) and t.op == 'var':
        if isinstance(x, (Fraction, int)):
          env[t] = x
        elif isinstance(x, np.integer):
          env[t] = int(x)
        else:
          env[t] = float(x)
  return env


def holds(assum, env):
  for a in assum:
    if a is False:
      return False
    if isinstance(a, Term):
      if not T.evaluate([a], env)[0]:
        return False
  return True


def model_values(syms, env, rnd_vals):
  out = []
  for s, v in zip(syms, rnd_vals):
    w = np.empty(s.shape, dtype=object)
    v = np.asarray(v)
    for j in np.ndindex(*s.shape):
      t = s[j]
      w[j] = env.get(t, v[j]) if isinstance(t, Term) else t
    out.append(w)
  return out


# -------------------------------------------------------------------- a case

def run_case(case, seed=1, deadline=None):
  res = Result(case.name)
  t0 = time.time()
  try:
    _run(case, res, seed, deadline)
  except Unsupported as e:
    res.status, res.detail = 'undecided', 'unsupported: %s' % e
  except interp.SymbolicRuntimeError as e:
    res.status, res.detail = 'undecided', 'encoding raises: %s' % e
  except Exception as e:
    res.status = 'undecided'
    res.detail = 'engine: %s: %s' % (type(e).__name__, str(e)[:300])
    if os.environ.get('VERIF_DEBUG'):
      traceback.print_exc()
  if res.status == 'undecided' and not case.stochastic:
    try:
      _numeric_search(case, res, seed)
    except Exception as e:
      res.detail += ' | replay search: %s: %s' % (type(e).__name__, str(e)[:200])
  res.wall = time.time() - t0
  return res


def all_symbols(case):
  return [x for a in case.args for x in a.symbols()]


def assumptions(case, syms, obj=None):
  out, i = [], 0
  for a in case.args:
    n = len(a.specs())
    if isinstance(a, sym.Dense):
      out += a.assumptions(syms[i:i + n])
    i += n
  if case.assume is not None:
    out += list(case.assume(*views(case, syms)))
  return out


def pick_point(case, syms, assum, rnd):
  for _ in range(200):
    v = random_values(case, rnd, syms)
    if holds(assum, env_of(syms, v)) and (case.good is None or case.good(views(case, v))):
      return v
  st = decide.Stats()
  from engine.z3conv import Conv
  conv = Conv()
  r, m = decide.solve(st, [conv(a) for a in assum if isinstance(a, Term)], 20)
  if r == 'sat':
    env = {t: decide.model_value(m, conv(t)) for s in syms for t in s.reshape(-1) if isinstance(t, Term)}
    return model_values(syms, env, random_values(case, rnd, syms))
  raise Unsupported('no input satisfies the assumptions (%s)' % r)


def try_real(case, tr, values, obj=None):
  """Run the real code at a point; -> (mode, failures) of the first failing
  mode, or (None, [])."""
  first = None
  for mode in (['graph'] if case.graph_only else ['eager', 'graph'] if case.eager else ['graph']):
    if mode == 'graph' and tr is None:
      continue
    try:
      if mode == 'eager':
        layout, flat = run_eager(case, values, obj)
      else:
        layout, flat = run_traced(case, tr, values)
    except Exception as e:
      if case.raises and _right_kind(case, e):
        continue
      return mode, ['raises %s: %s' % (type(e).__name__, str(e).split('\n')[0][:200])]
    if case.raises:
      return mode, ['returns a value instead of raising']
    bad = numeric_failures(case, values, layout, flat, obj)
    if bad:
      return mode, bad
  return None, []


def _right_kind(case, e):
  """case.raises may name the exception types that are documented."""
  return case.raises is True or isinstance(e, case.raises)


def _numeric_search(case, res, seed):
  """Undecided obligation: look for a failing input on the real code."""
  T.reset()
  obj = case.setup() if case.setup else None
  try:
    tr = trace(case, obj)
  except Exception:
    tr = None
  syms = all_symbols(case)
  assum = assumptions(case, syms, obj)
  rnd = random.Random(seed * 7919 + 13)
  for k in range(12):
    values = pick_point(case, syms, assum, rnd)
    if k >= 4:
      values = _rescaled(case, values, syms, assum, rnd)
      if values is None:
        return
    res.replays += 1
    mode, bad = try_real(case, tr, values, obj)
    if bad:
      # confirm: a second run must show it as well
      mode2, bad2 = try_real(case, tr, values, obj)
      if bad2:
        res.status, res.mode, res.values = 'violation', mode2, cast_values(case, values)
        res.detail = '%s [solver: %s]' % ('; '.join(bad2[:3]), res.detail)
        return


def _rescaled(case, values, syms, assum, rnd):
  """A point whose entries differ by orders of magnitude."""
  if case.sample is not None or case.good is not None or any(a.dtype != 'float64' for a in case.args):
    return None
  for _ in range(50):
    out = [np.array([x * Fraction(1, rnd.choice((1, 1, 10 ** 3, 10 ** 5))) if isinstance(x, Fraction) else x
                     for x in v.reshape(-1)], dtype=object).reshape(v.shape) for v in map(np.asarray, values)]
    if holds(assum, env_of(syms, out)):
      return out
  return None


def _run(case, res, seed, deadline):
  T.reset()
  rnd = random.Random(seed * 1000003 + 7)
  obj = case.setup() if case.setup else None
  syms = all_symbols(case)
  assum = assumptions(case, syms, obj)
  point = pick_point(case, syms, assum, rnd)
  res.witness = 1
  # ---- trace
  try:
    tr = trace(case, obj)
  except Exception as e:
    msg = '%s: %s' % (type(e).__name__, str(e).split('\n')[0][:200])
    if case.raises:
      _eager_raises(case, res, point, obj, msg)
      return
    tr = None
    if case.graph_only or not case.eager:
      res.status, res.detail, res.mode = 'violation', 'tracing raises ' + msg, 'graph'
      res.values = cast_values(case, point)
      return
    mode, bad = try_real(case, None, point, obj)
    res.replays += 1
    if bad:
      res.status, res.detail, res.mode = 'violation', '; '.join(bad[:3]), mode
      res.values = cast_values(case, point)
      return
    res.status, res.detail = 'undecided', 'cannot be traced: ' + msg
    return
  res.functions = tr.functions
  # ---- encode
  ctx = contracts.Ctx()
  ctx.full_rank = case.full_rank
  ctx.wide = case.is_wide()
  args = list(syms)
  for ext, _ in tr.cf.graph.captures:
    args.append(_capture(ctx, ext, obj))
  try:
    flat = interp.run_graph(ctx, tr.cf.graph, args, tr.cf.graph.outputs)
  except interp.SymbolicRuntimeError as e:
    if case.raises:
      _eager_raises(case, res, point, obj, str(e))
      return
    raise
  res.nops = ctx.nops
  res.op_types = sorted(ctx.op_types)
  res.contracts = len(ctx.apps)
  if case.raises:
    _raises_at_runtime(case, res, ctx, syms, assum, tr, point, obj)
    return
  outs = regroup(tr.layout, flat)
  vs = views(case, syms)
  if obj is not None:
    vs = [obj] + vs
  s = S(True, ctx)
  expected = None
  if case.spec is not None:
    expected = as_list(case.spec(*vs))
    if len(expected) != len(outs):
      _confirm(case, res, tr, point, obj, 'number of outputs')
      return
  n, bad = structure(case, outs, expected)
  bad += dtype_failures(case, tr.layout, expected)
  res.structural = n
  if bad:
    _confirm(case, res, tr, point, obj, '; '.join(bad[:3]))
    return
  cl = value_claims(case, s, vs, outs, expected)
  claims = []
  for name, out, ref, rel in cl:
    out = np.asarray(out, dtype=object) if not isinstance(out, np.ndarray) else out
    if rel == 'bool':
      for i, x in enumerate(out.reshape(-1)):
        claims.append(decide.Claim('%s[%d]' % (name, i), x, True, 'bool'))
      continue
    ref = np.asarray(ref, dtype=object) if not isinstance(ref, np.ndarray) else ref
    if out.shape != ref.shape:
      _confirm(case, res, tr, point, obj, '%s: shape %s instead of %s' % (name, out.shape, ref.shape))
      return
    a, b = interp.as_obj(out).reshape(-1), interp.as_obj(ref).reshape(-1)
    for i in range(a.size):
      if rel == 'le':
        claims.append(decide.Claim('%s[%d]' % (name, i), T.le(a[i], b[i]), True, 'bool'))
      else:
        claims.append(decide.Claim('%s[%d]' % (name, i), a[i], b[i]))
  if case.asserts:
    for k, c in enumerate(dict.fromkeys(ctx.asserts)):
      claims.append(decide.Claim('run-time check %d' % k, c, True, 'bool'))
  res.claims = len(claims)
  extra = list(case.extra(s, vs, outs)) if case.extra is not None else []
  # ---- translation validation and a first look at the real code
  if not case.stochastic:
    mode, bad = try_real(case, tr, point, obj)
    res.replays += 1
    if case.tv:
      _, real = run_traced(case, tr, point)
      d = _tv(case, ctx, syms, point, flat, real, obj, extra)
      if d:
        if not bad:
          raise Unsupported('encoding and real run differ: ' + d)
      else:
        res.tv_points += 1
    if bad:
      res.detail = '; '.join(bad[:3])
      env = _focus(case, res, ctx, claims, assum, extra, syms, point, obj)
      for vals in ([model_values(syms, env, point)] if env else []) + [point]:
        m2, b2 = try_real(case, tr, vals, obj)
        res.replays += 1
        if b2:
          res.status, res.mode, res.detail = 'violation', m2, '; '.join(b2[:3])
          res.values = cast_values(case, vals)
          return
      res.status = 'spurious'
      return
  # ---- decide
  guard_domains(ctx, claims, assum, res.stats)
  prob = decide.Problem(claims, ctx.apps, assum, case.timeout, extra)
  v = prob.run()
  res.stats.add(prob.stats)
  if v.kind == 'proved':
    res.status = 'proved'
    return
  if v.kind == 'undecided':
    res.status, res.detail = 'undecided', v.detail
    if not case.stochastic and case.sample is None and any(a.kind in ('svd', 'qr') for a in ctx.apps):
      env = aligned.counterexample(case.args, syms, claims, ctx.apps, assum, res.stats)
      vals = model_values(syms, env, point) if env is not None else None
      if vals is not None and (case.good is None or case.good(views(case, vals))):
        mode, bad = try_real(case, tr, vals, obj)
        res.replays += 1
        if bad:
          res.sat_claims += 1
          res.status, res.mode, res.detail = 'violation', mode, '; '.join(bad[:3])
          res.values = cast_values(case, vals)
    return
  res.sat_claims += 1
  if case.stochastic:
    res.status, res.detail = 'refuted', v.detail
    res.model = {t.args[0]: str(x) for t, x in list(v.env.items())[:20]}
    return
  cands = [model_values(syms, v.env, point)]
  for k in range(3):
    q = pick_point(case, syms, assum, rnd)
    cands.append(model_values(syms, {t: x for t, x in v.env.items() if t.sort != 'R'}, q))
  for vals in cands:
    if not holds(assum, env_of(syms, vals)):
      continue
    mode, bad = try_real(case, tr, vals, obj)
    res.replays += 1
    if bad:
      res.status, res.mode = 'violation', mode
      res.detail = '; '.join(bad[:3])
      res.values = cast_values(case, vals)
      return
  # The difference may be real but below rounding level everywhere.
  res.status = 'spurious'
  res.detail = 'model at %s does not reproduce' % v.detail
  if _tiny(claims, assum, ctx, syms, cands):
    res.status = 'undecided'
    res.detail = 'differs from the reference by less than rounding: ' + v.detail


def guard_domains(ctx, claims, assum, stats):
  """Roots and reciprocals whose arguments may leave the domain for inputs
  that satisfy the assumptions are not constrained there."""
  from engine.z3conv import Conv
  from engine import poly as P
  apps = [a for a in ctx.apps if contracts.guarded(a) is not None]
  if not apps:
    return
  roots = {a.outs[0][()].id for a in apps if a.kind == 'root' and isinstance(a.inp[()], Term) and contracts.nonneg(a.inp[()])}
  squares = {x.id: x for x in [a.inp[()] for a in apps] + [c.ref for c in claims]
             if isinstance(x, Term) and x.sort == 'R' and contracts.nonneg(x, roots)}
  above = set()      # roots that cannot vanish
  owner = {y.id: a for a in apps for y in a.outs[0].reshape(-1)}
  for app in apps:
    x, ok = app.inp[()], contracts.guarded(app)
    if not isinstance(ok, Term) or app.kind == 'recip' and x.id in above:
      continue
    if app.kind == 'root' and x.id in squares:
      if contracts.positive(x):
        above.add(app.outs[0][()].id)
      continue
    if app.kind == 'root' and squares:
      vs = T.variables([x] + list(squares.values()))
      ring = P.Ring({v.id: k for k, v in enumerate(vs)})
      try:
        same = [q for q in squares.values() if not P.padd(dict(ring.expand(x)), ring.expand(q), -1)]
        if same:
          if any(contracts.positive(q) for q in same):
            above.add(app.outs[0][()].id)
          continue
      except (Unsupported, P.TooBig):
        pass
    conv = Conv()
    cons = [conv(a) for a in assum if isinstance(a, Term)] + [conv(T.not_(ok))]
    todo, seen = [x], set()
    while todo:
      for v in T.variables([todo.pop()]):
        a = owner.get(v.id)
        if a is not None and id(a) not in seen:
          seen.add(id(a))
          cons += [conv(l) == conv(r) for _, l, r in a.eqs] + [conv(c) for c in a.conds]
          todo.append(a.inp[()])
    if decide.solve(stats, cons, 5)[0] != 'unsat':
      contracts.weaken(app)


def _tiny(claims, assum, ctx, syms, cands):
  for vals in cands:
    env = {t: float(x) if t.sort == 'R' else x for t, x in env_of(syms, vals).items()}
    ctx.env_extend(env)
    for c in claims:
      if c.rel != 'eq':
        continue
      try:
        a, b = T.evaluate([c.out, c.ref], env)
      except KeyError:
        return False
      if abs(float(a) - float(b)) > 1e-7 * (1 + abs(float(b))):
        return False
  return True


def _confirm(case, res, tr, point, obj, msg):
  """Structural disagreement found in the encoding: see it on the real code."""
  mode, bad = try_real(case, tr, point, obj)
  res.replays += 1
  if bad:
    res.status, res.mode, res.detail = 'violation', mode, '; '.join(bad[:3])
    res.values = cast_values(case, point)
  else:
    res.status, res.detail = 'spurious', msg


def _focus(case, res, ctx, claims, assum, extra, syms, point, obj):
  """A solver model for one entry that fails at the given point."""
  env = env_of(syms, point)
  try:
    if ctx.apps:
      env = {t: float(x) if t.sort == 'R' else x for t, x in env.items()}
      ctx.env_extend(env)
    for c in claims:
      if c.rel == 'bool':
        v = T.evaluate([c.out], env)[0]
        fails = not v
      else:
        a, b = T.evaluate([c.out, c.ref], env)
        fails = abs(float(a) - float(b)) > 1e-7 * (1 + abs(float(b)))
      if fails:
        p = decide.Problem([c], ctx.apps, assum, 10, extra)
        p.orders = ()
        p.max_paths = 200
        v = p.run()
        res.stats.add(p.stats)
        if v.kind == 'refuted':
          res.sat_claims += 1
          return v.env
        return None
  except (KeyError, Unsupported):
    pass
  return None


def _tv(case, ctx, syms, point, flat, real, obj, extra=()):
  env = env_of(syms, cast_values(case, point))
  if obj is not None and hasattr(obj, 'state_values'):
    env.update(obj.state_values(ctx))
  ctx.env_extend(env)
  tol = 3e-3 if 'float32' in [a.dtype for a in case.args] else 1e-7
  for k, (s, r) in enumerate(zip(flat, real)):
    e = T.evaluate(list(s.reshape(-1)), env)
    e = np.array([float(x) for x in e]).reshape(s.shape)
    if e.shape != r.shape:
      return 'value %d has shape %s, encoded %s' % (k, r.shape, e.shape)
    r = r.astype(float)
    if e.size:
      sc = 1 + np.max(np.abs(r))
      if not np.all(np.abs(e - r) <= tol * sc):
        return 'value %d differs (%s)' % (k, np.max(np.abs(e - r)))
  for tag, l, r in extra:
    a, b = T.evaluate([l, r], env)
    if abs(float(a) - float(b)) > 10 * tol * (1 + abs(float(b))):
      return 'assumed equation %s does not hold' % tag
  return ''


def _capture(ctx, ext, obj):
  if ext.dtype == tf.resource:
    key = ('res', id(ext))
    val = obj.symbol_of(ext) if obj is not None and hasattr(obj, 'symbol_of') else None
    if val is None:
      raise Unsupported('captured variable')
    ctx.state[key] = val
    return interp._scalar(key, object)
  v = ext.numpy()
  return interp.to_exact(v) if v.dtype.kind == 'f' else v


# --------------------------------------------------------- expected failures

def _eager_raises(case, res, point, obj, msg):
  """The traced/encoded program raises for all values; eager must as well."""
  res.structural = 1
  if not case.eager:
    res.status, res.detail = 'proved', 'raises ' + msg
    return
  mode, bad = try_real(case, None, point, obj)
  res.replays += 1
  if bad:
    res.status, res.mode, res.detail = 'violation', mode, '; '.join(bad[:3])
    res.values = cast_values(case, point)
  else:
    res.status, res.detail = 'proved', 'raises ' + msg


def _raises_at_runtime(case, res, ctx, syms, assum, tr, point, obj):
  """Tracing succeeds: some run-time check must fail for every input."""
  from engine.z3conv import Conv
  conv = Conv()
  cons = [conv(a) for a in list(assum) + list(ctx.asserts) if isinstance(a, Term)]
  res.claims = 1
  r, m = decide.solve(res.stats, cons, case.timeout)
  if r == 'unsat':
    res.status = 'proved'
    return
  env = {}
  if r == 'sat':
    env = {t: decide.model_value(m, conv(t)) for s in syms for t in s.reshape(-1) if isinstance(t, Term)}
  for vals in (model_values(syms, env, point), point):
    mode, bad = try_real(case, tr, vals, obj)
    res.replays += 1
    if bad:
      res.status, res.mode, res.detail = 'violation', mode, '; '.join(bad[:3])
      res.values = cast_values(case, vals)
      return
  res.status = 'undecided' if r == 'unknown' else 'spurious'
  res.detail = 'encoding returns a value, real code raises'
