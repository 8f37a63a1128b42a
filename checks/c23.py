"""C23: TT variables: histories of reads and assignments."""
import itertools
import time
import numpy as np
import tensorflow as tf
import t3f
from engine import contracts
from engine import decide
from engine import harness
from engine import interp
from engine import terms as T
from engine.harness import Case
from engine.sym import TT, ETT
from engine.terms import Unsupported
from checks.grid import label

v1 = tf.compat.v1

# what a step does: (variable, new value)
STEPS = {
    'u=a': ('u', lambda s: s['a']),
    'u=b': ('u', lambda s: s['b']),
    'w=a': ('w', lambda s: s['a']),
    'u=w': ('u', lambda s: s['w']),
    'w=u': ('w', lambda s: s['u']),
    'u=-2u': ('u', lambda s: -2 * s['u']),
}


class History(object):
  """u and w start from symbolic initialisers, then the steps are carried out;
  after each one both variables and the assigned object are read."""

  def __init__(self, t, steps, mode, name=None, names=('u', 'w'), scope=None, reuse=False):
    self.t = t
    self.steps = steps
    self.mode = mode
    self.names = names
    self.scope = scope
    self.reuse = reuse
    self.name = name or '%s: %s %s%s' % (mode, ' '.join(steps) or 'no step', label(t),
                                         '' if names == ('u', 'w') else ' names %s %s' % names)
    self.specs = [TT(n, t.modes, t.ranks, t.cols, t.batch, t.dtype) for n in ('iu', 'iw', 'a', 'b')]

  # ---------------------------------------------------------------- real code
  def variables(self, inits):
    out = []
    for n, x in zip(self.names, inits):
      if self.scope is None:
        out.append(t3f.get_variable(n, initializer=x))
      else:
        with v1.variable_scope(self.scope):
          out.append(t3f.get_variable(n, initializer=x))
    return out

  def reused(self, n):
    with v1.variable_scope(self.scope or '', reuse=True):
      return t3f.get_variable(n, dtype=self.tensor_specs()[0].dtype)

  def steps_on(self, env, read):
    outs = [read('u', env['u']), read('w', env['w'])]
    for s in self.steps:
      k, f = STEPS[s]
      new = t3f.assign(env[k], f(env))
      outs += [read('new', new), read('u', env['u']), read('w', env['w'])]
    return outs

  def expected(self, views):
    env = {'u': views[0].dense(), 'w': views[1].dense(), 'a': views[2].dense(), 'b': views[3].dense()}
    outs = [env['u'], env['w']]
    for s in self.steps:
      k, f = STEPS[s]
      env[k] = f(env)
      outs += [env[k], env['u'], env['w']]
    return outs

  def build(self, tensors):
    n = len(self.t.modes)
    return [sp.build(tensors[k * n:(k + 1) * n]) for k, sp in enumerate(self.specs)]

  def views(self, arrays):
    n = len(self.t.modes)
    return [sp.view(arrays[k * n:(k + 1) * n]) for k, sp in enumerate(self.specs)]

  def tensor_specs(self):
    return [s for sp in self.specs for s in sp.specs()]

  # ----------------------------------------------------------------- function
  def prepare_function(self):
    zeros = [tf.zeros(s.shape, s.dtype) for s in self.tensor_specs()]
    iu, iw, _, _ = self.build(zeros)
    n = len(self.t.modes)
    us = self.variables([iu, iw])
    handles = [c.handle for v in us for c in v.tt_cores]

    def body(*tensors):
      objs = self.build(zeros[:2 * n] + list(tensors))
      env = {'u': us[0], 'w': us[1], 'a': objs[2], 'b': objs[3]}
      return self.steps_on(env, lambda k, x: t3f.full(x))
    self.us, self.handles, self.body = us, handles, body
    self.cf = tf.function(body, autograph=False).get_concrete_function(*self.tensor_specs()[2 * n:])

  def encode_function(self, ctx, syms):
    n = len(self.t.modes)
    args = list(syms[2 * n:])
    for ext, _ in self.cf.graph.captures:
      if ext.dtype == tf.resource:
        k = [i for i, h in enumerate(self.handles) if h is ext]
        if not k:
          raise Unsupported('captured variable')
        key = ('res', k[0])
        ctx.state[key] = syms[k[0]]
        args.append(interp._scalar(key, object))
      else:
        v = ext.numpy()
        args.append(interp.to_exact(v) if v.dtype.kind == 'f' else v)
    return interp.run_graph(ctx, self.cf.graph, args, self.cf.graph.outputs)

  def real_function(self, values, eager):
    n = len(self.t.modes)
    for v, x in zip([c for u in self.us for c in u.tt_cores], values[:2 * n]):
      v.assign(x)
    f = self.body if eager else self.cf
    return [np.asarray(o) for o in f(*[tf.constant(x) for x in values[2 * n:]])]

  # ------------------------------------------------------------------ session
  def prepare_session(self):
    self.graph = tf.Graph()
    with self.graph.as_default():
      self.ph = [v1.placeholder(s.dtype, s.shape) for s in self.tensor_specs()]
      iu, iw, a, b = self.build(self.ph)
      us = self.variables([iu, iw])
      init = v1.global_variables_initializer()
      if self.reuse:
        us = [self.reused(n) for n in self.names]
      env = {'u': us[0], 'w': us[1], 'a': a, 'b': b}
      self.runs = [[init]]
      reads = lambda: self.runs.extend([[t3f.full(env['u'])], [t3f.full(env['w'])]])
      reads()
      for s in self.steps:
        k, f = STEPS[s]
        self.runs.append([t3f.full(t3f.assign(env[k], f(env)))])
        reads()

  def encode_session(self, ctx, syms):
    outs = []
    for r in self.runs:
      feeds = list(zip(self.ph, syms))
      outs += [x for x in interp.run_needed(ctx, self.graph, feeds, r) if x is not None]
    return outs

  def real_session(self, values):
    outs = []
    with v1.Session(graph=self.graph) as s:
      for r in self.runs:
        got = s.run(r, dict(zip([p.name for p in self.ph], values)))
        outs += [np.asarray(x) for x, f in zip(got, r) if not isinstance(f, tf.Operation)]
    return outs

  # ---------------------------------------------------------------------- run
  def run(self, seed):
    res = harness.Result(self.name)
    t0 = time.time()
    try:
      self._run(res, seed)
    except Unsupported as e:
      res.status, res.detail = 'undecided', 'unsupported: %s' % e
    except Exception as e:
      res.status, res.detail = 'undecided', 'engine: %s: %s' % (type(e).__name__, str(e)[:300])
    res.wall = time.time() - t0
    return res

  def _values(self, seed):
    rnd = np.random.RandomState(seed)
    return [(rnd.randint(1, 10, s.shape) * rnd.choice([-1, 1], s.shape) / 4.0).astype(s.dtype.as_numpy_dtype)
            for s in self.tensor_specs()]

  def failures(self, values):
    want = self.expected(self.views([np.asarray(v, dtype=float) for v in values]))
    for mode in (['session'] if self.mode == 'session' else ['graph', 'eager']):
      try:
        got = self.real_session(values) if mode == 'session' else self.real_function(values, mode == 'eager')
      except Exception as e:
        return mode, 'raises %s: %s' % (type(e).__name__, str(e).split('\n')[0][:200])
      for k, (x, y) in enumerate(zip(got, want)):
        if x.shape != y.shape or np.max(np.abs(x - y)) > 1e-4 * (1 + np.max(np.abs(y))):
          return mode, 'read %d differs from the last assigned value' % k
    return None, ''

  def prepare(self):
    (self.prepare_session if self.mode == 'session' else self.prepare_function)()

  def _run(self, res, seed):
    T.reset()
    values = self._values(seed)
    try:
      self.prepare()
    except Exception as e:
      res.status, res.mode, res.values = 'violation', self.mode, values
      res.detail = 'raises %s: %s' % (type(e).__name__, str(e).split('\n')[0][:200])
      return
    res.witness = 1
    ctx = contracts.Ctx()
    syms = [x for sp in self.specs for x in sp.symbols()]
    outs = (self.encode_session if self.mode == 'session' else self.encode_function)(ctx, syms)
    res.nops, res.op_types = ctx.nops, sorted(ctx.op_types)
    res.functions = ['variables:get_variable', 'variables:assign']
    ref = self.expected(self.views(syms))
    mode, bad = self.failures(values)
    res.replays += 1
    if bad:
      res.status, res.mode, res.values, res.detail = 'violation', mode, values, bad
      return
    claims = []
    for k, (o, r) in enumerate(zip(outs, ref)):
      for x, y in zip(np.asarray(o).reshape(-1), np.asarray(r).reshape(-1)):
        claims.append(decide.Claim('read %d' % k, x, y))
    if len(outs) != len(ref):
      raise Unsupported('number of reads')
    res.claims = len(claims)
    p = decide.Problem(claims, ctx.apps, [], 60)
    v = p.run()
    res.stats.add(p.stats)
    if v.kind == 'proved':
      res.status = 'proved'
      return
    res.detail = v.detail
    if v.kind == 'undecided':
      res.status = 'undecided'
      return
    res.sat_claims += 1
    vals = [np.array([float(v.env.get(t, 1)) for t in s.reshape(-1)]).reshape(s.shape).astype(x.dtype)
            for s, x in zip(syms, values)]
    mode, bad = self.failures(vals)
    res.replays += 1
    res.status = 'violation' if bad else 'spurious'
    if bad:
      res.mode, res.values, res.detail = mode, vals, bad

  def replay(self, d):
    self.prepare()
    vals = [np.array(v).astype(s.dtype.as_numpy_dtype) for v, s in zip(d['values'], self.tensor_specs())]
    mode, bad = self.failures(vals)
    return '%s: %s' % (mode, bad) if bad else ''


def created(t):
  """The variable object describes itself like its initialiser."""
  def prog(a):
    g = tf.Graph()
    with g.as_default():
      z = [v1.placeholder(s.dtype, s.shape) for s in t.specs()]
      v = t3f.get_variable('x', initializer=t.build(z))
      ok = [isinstance(v, t3f.TensorTrain) == (t.batch is None), v.get_raw_shape() == t.build(z).get_raw_shape(),
            v.get_tt_ranks() == t.build(z).get_tt_ranks(), v.dtype == z[0].dtype,
            [c.ref() for c in v1.trainable_variables()] == [c.ref() for c in v.tt_cores]]
      if t.batch is not None:
        ok.append(v.batch_size == t.batch)
      with v1.variable_scope('', reuse=True):
        ok.append(t3f.get_variable('x', dtype=z[0].dtype) is v)
      w = t3f.get_variable('y', initializer=t.build(z), trainable=False)
      ok.append(len(v1.trainable_variables()) == len(t.modes))
      ok.append(not {c.ref() for c in w.tt_cores} & {c.ref() for c in v.tt_cores})
      with v1.variable_scope('s'):
        q = t3f.get_variable('x', initializer=t.build(z))
      ok.append(not {c.ref() for c in q.tt_cores} & {c.ref() for c in v.tt_cores})
      with v1.variable_scope('s', reuse=True):
        ok.append(t3f.get_variable('x', dtype=z[0].dtype) is q)
      ok.append(v.name == 'x' and q.name == 's/x')
    return [tf.constant([bool(x) for x in ok])]
  return Case('created ' + label(t), [t], prog, None,
              check=lambda S, vs, outs: [('attribute', outs[0], True, 'bool')])


def in_graph(f):
  def g():
    with tf.Graph().as_default():
      return f()
  return g


def missing():
  with v1.variable_scope('', reuse=True):
    return t3f.get_variable('nothing')


def duplicate():
  x = t3f.tensor_ones([2, 3])
  t3f.get_variable('d', initializer=x)
  return t3f.get_variable('d', initializer=x)


def other_dtype():
  t3f.get_variable('e', initializer=t3f.tensor_ones([2, 3]), dtype=tf.float64)


def cases(tier):
  out = []
  t = TT('x', (2, 2), (1, 2, 1))
  names = list(STEPS)
  depth = 2 if tier == 'quick' else 3
  for mode in ('function', 'session'):
    for n in range(depth + 1):
      for h in itertools.product(names, repeat=n):
        out.append(History(t, h, mode))
    three = [('u=a', 'w=u', 'u=b'), ('w=a', 'u=w', 'w=u'), ('u=-2u', 'w=u', 'u=-2u'), ('u=w', 'w=a', 'u=-2u'),
             ('u=a', 'u=b', 'w=u'), ('w=u', 'u=a', 'u=w')]
    if depth < 3:
      out += [History(t, h, mode) for h in three]
    more = [TT('x', (3,), (1, 1)), TT('x', (2, 3, 2), (1, 2, 3, 1)), TT('x', (2, 2), (1, 2, 1), cols=(3, 1)),
            TT('x', (2, 3), (1, 2, 1), batch=2), TT('x', (2, 1), (1, 2, 1), cols=(1, 2), batch=3),
            TT('x', (2, 2), (1, 2, 1), dtype='float32'), TT('x', (2, 2), (1, 2, 1), batch=1),
            TT('x', (2, 1, 2, 3, 2), (1, 2, 1, 2, 2, 1)), TT('x', (2, 1, 2, 1), (1, 2, 1, 2, 1), cols=(1, 2, 1, 2), batch=2)]
    for m in more:
      for h in three + [('u=a',), ('u=-2u',)]:
        out.append(History(m, h, mode))
    for pair in (('x', 'x_1'), ('core', 'core_0'), ('a', 'ab'), ('x/core_0', 'x')):
      if mode == 'session':
        out.append(History(t, ('u=a', 'w=u', 'u=b'), mode, names=pair))
  for h in three:
    for m in [t] + more:
      out.append(History(m, h, 'session', name='session with reuse: %s %s' % (' '.join(h), label(m)), reuse=True))
  out.append(History(t, three[0], 'session', name='session with reuse in a scope', reuse=True, scope='sc'))
  for m in [t] + more:
    out.append(created(m))
  for n, f in (('reuse of a missing variable', missing), ('a second variable of the same name', duplicate),
               ('a different dtype', other_dtype), ('no initialiser', lambda: t3f.get_variable('z'))):
    out.append(Case('rejects ' + n, [], in_graph(f), raises=(ValueError,)))
  return out
