"""Driver of one check:  run.py <property id>   (see DESIGN.md)

  run.py C04                 decide the property, write evidence/C04.json
  run.py C04 --only TEXT     only the cases whose name contains TEXT
  run.py --replay FILE       rerun a saved counterexample on the real code
"""
import argparse
import importlib
import json
import os
import queue
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('T3F_REPO', '/repo')

os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
os.environ.setdefault('PYTHONHASHSEED', '0')
os.environ.setdefault('CUDA_VISIBLE_DEVICES', '-1')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('TF_ENABLE_ONEDNN_OPTS', '0')
sys.dont_write_bytecode = True


def tier_limits(tier):
  # whole check, one case (seconds)
  return (600, 120) if tier == 'quick' else (850, 300)


def load(prop, tier):
  sys.path.insert(0, HERE)
  sys.path.insert(0, REPO)
  import numpy  # noqa: F401  (before z3)
  import tensorflow as tf
  tf.config.threading.set_intra_op_parallelism_threads(1)
  tf.config.threading.set_inter_op_parallelism_threads(1)
  import t3f
  if not os.path.abspath(t3f.__file__).startswith(REPO + '/'):
    raise RuntimeError('t3f is not imported from %s' % REPO)
  mod = importlib.import_module('checks.' + prop.lower())
  cases = mod.cases(tier)
  names = [c.name for c in cases]
  if len(set(names)) != len(names):
    dup = sorted(n for n in set(names) if names.count(n) > 1)
    raise RuntimeError('duplicate case names %s' % dup[:3])
  return mod, cases


def limit_memory():
  """A case that outgrows its share ends as undecided, not as a dead worker."""
  import resource
  from engine.z3conv import z3
  z3.set_param('memory_max_size', 2500)
  resource.setrlimit(resource.RLIMIT_DATA, (3600 << 20, 3600 << 20))


def worker(prop, tier, seed):
  import signal
  real = os.dup(1)
  os.dup2(2, 1)        # library prints must not disturb the protocol
  out = os.fdopen(real, 'w')
  mod, cases = load(prop, tier)
  from engine import harness
  limit_memory()
  limit = tier_limits(tier)[1]

  class Late(Exception):
    pass

  def late(*_):
    raise Late('time limit of the case')

  signal.signal(signal.SIGALRM, late)
  out.write(json.dumps({'ready': [c.name for c in cases]}) + '\n')
  out.flush()
  for line in sys.stdin:
    line = line.strip()
    if not line:
      break
    c = cases[int(line)]
    signal.alarm(limit)
    try:
      runner = getattr(c, 'run', None)
      r = runner(seed) if runner is not None else harness.run_case(c, seed)
      d = r.as_dict()
    except Late as e:
      d = {'case': c.name, 'status': 'undecided', 'detail': str(e)}
    except Exception as e:
      d = {'case': c.name, 'status': 'error', 'detail': '%s: %s' % (type(e).__name__, str(e)[:500])}
    signal.alarm(0)
    out.write(json.dumps(d) + '\n')
    out.flush()


def known_findings(prop):
  p = os.path.join(HERE, 'known_findings.json')
  if not os.path.exists(p):
    return {}
  with open(p) as f:
    data = json.load(f)
  return {e['case']: e for e in data['open'] if e['property'] == prop}


def is_known(known, r):
  """The recorded finding, not another failure of the same configuration."""
  e = known.get(r['case'])
  return e is not None and e.get('detail', '') in r['detail']


def drive(prop, tier, seed, only, nworkers, verbose):
  t0 = time.time()
  limit = tier_limits(tier)[0]
  todo = queue.Queue()
  results, errors = {}, []
  lock = threading.Lock()
  names = []
  known = known_findings(prop)
  ready = threading.Event()

  def start():
    return subprocess.Popen([PY, os.path.join(HERE, 'run.py'), prop, '--worker'],
                            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE if not verbose else None,
                            text=True, cwd=HERE)

  def tail(p):
    try:
      p.kill()
      return (p.stderr.read() or '')[-1500:] if p.stderr else ''
    except Exception:
      return ''

  def loop(k):
    p = start()
    if p.stderr:
      # drain so that the pipe cannot fill up
      buf = []
      def drain():
        for l in p.stderr:
          buf.append(l)
          del buf[:-30]
      threading.Thread(target=drain, daemon=True).start()
    line = p.stdout.readline()
    if not line:
      p.wait()
      time.sleep(0.2)
      with lock:
        errors.append('worker did not start: ' + (''.join(buf) if p.stderr else ''))
      ready.set()
      return
    got = json.loads(line)['ready']
    with lock:
      if not names:
        names.extend(got)
        for i, n in enumerate(got):
          if only is None or only in n:
            todo.put(i)
        ready.set()
    while True:
      try:
        i = todo.get_nowait()
      except queue.Empty:
        break
      with lock:
        enough = sum(r['status'] == 'violation' and not is_known(known, r) for r in results.values()) >= 20
      if enough:
        break
      if time.time() - t0 > limit:
        with lock:
          results[i] = {'case': names[i], 'status': 'undecided', 'detail': 'time budget of the check'}
        continue
      try:
        p.stdin.write('%d\n' % i)
        p.stdin.flush()
        line = p.stdout.readline()
      except (BrokenPipeError, OSError):
        line = ''
      if not line:
        time.sleep(0.2)
        with lock:
          errors.append('worker died in case %s: %s' % (names[i], ''.join(buf) if p.stderr else ''))
          again = len(errors) < 8
        p.wait()
        if again:
          loop(k)
        return
      d = json.loads(line)
      with lock:
        results[i] = d
        if verbose:
          print('%-11s %6.2fs %s %s' % (d['status'], d.get('wall', 0), d['case'], d.get('detail', '')[:200]),
                flush=True)
    try:
      p.stdin.write('\n')
      p.stdin.flush()
      p.stdin.close()
    except (BrokenPipeError, OSError):
      pass
    try:
      p.wait(timeout=20)
    except subprocess.TimeoutExpired:
      p.kill()

  th = [threading.Thread(target=loop, args=(k,)) for k in range(nworkers)]
  for t in th:
    t.start()
  for t in th:
    t.join()
  return names, results, errors, time.time() - t0


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop', nargs='?')
  ap.add_argument('--worker', action='store_true')
  ap.add_argument('--only')
  ap.add_argument('--replay')
  ap.add_argument('-j', type=int, default=0)
  ap.add_argument('-v', action='store_true')
  a = ap.parse_args()
  tier = os.environ.get('VERIF_TIER', 'quick')
  if tier not in ('quick', 'thorough'):
    tier = 'quick'
  try:
    seed = int(os.environ.get('VERIF_SEED', '1'))
  except ValueError:
    seed = 1
  os.environ['VERIF_TIER'], os.environ['VERIF_SEED'] = tier, str(seed)
  if a.replay:
    sys.exit(replay(a.replay))
  if a.worker:
    worker(a.prop, tier, seed)
    return
  nw = a.j or max(1, min(8, os.cpu_count() or 1))
  names, results, errors, wall = drive(a.prop, tier, seed, a.only, nw, a.v)
  sys.exit(report(a.prop, tier, seed, names, results, errors, wall, a.only))


def report(prop, tier, seed, names, results, errors, wall, only):
  known = known_findings(prop)
  res = [results[i] for i in sorted(results)]
  viol, kn = [], []
  for r in res:
    if r['status'] == 'violation':
      (kn if is_known(known, r) else viol).append(r)
  errs = list(errors) + ['%s: %s' % (r['case'], r['detail']) for r in res if r['status'] == 'error']
  spurious = [r for r in res if r['status'] == 'spurious']
  undecided = [r for r in res if r['status'] == 'undecided']
  proved = [r for r in res if r['status'] == 'proved']
  ev_dir = os.path.join(HERE, 'evidence')
  os.makedirs(os.path.join(ev_dir, 'replay'), exist_ok=True)
  for r in viol:
    safe = ''.join(ch if ch.isalnum() else '_' for ch in r['case'])[:120]
    path = os.path.join(ev_dir, 'replay', '%s_%s.json' % (prop, safe))
    with open(path, 'w') as f:
      json.dump({'property': prop, 'case': r['case'], 'tier': tier, 'mode': r.get('mode', ''),
                 'detail': r['detail'], 'values': r.get('values'),
                 'rerun': '%s %s --replay %s' % (PY, os.path.join(HERE, 'run.py'), path)}, f)
    r['path'] = path

  def total(key):
    return sum(r.get('stats', {}).get(key, 0) for r in res)

  funcs = sorted({f for r in res for f in r.get('functions', [])})
  cov = {
      'obligations': sum(r.get('claims', 0) + r.get('structural', 0) for r in res),
      'discharged': sum(r.get('claims', 0) + r.get('structural', 0) for r in proved),
      'checker_cmd': '%s %s %s' % (PY, os.path.join(HERE, 'run.py'), prop),
      'trusted_base': ['z3 (via its Python API)', 'engine/interp.py op semantics',
                       'engine/contracts.py kernel contracts', 'TensorFlow graph tracing',
                       'the dense references in checks/%s.py and engine/sym.py' % prop.lower()],
      'configurations': len(res),
      'configurations_proved': len(proved),
      'configurations_undecided': len(undecided),
      'known_findings_seen': len(kn),
      'value_claims': sum(r.get('claims', 0) for r in res),
      'metadata_claims': sum(r.get('structural', 0) for r in res),
      'solver_queries': total('queries'),
      'solver_unsat': total('unsat'),
      'solver_sat': total('sat'),
      'solver_unknown': total('unknown'),
      'solver_seconds': round(total('solver_s'), 3),
      'paths': total('paths'),
      'certificate_monomials': total('cert_terms'),
      'graph_ops_encoded': sum(r.get('nops', 0) for r in res),
      'op_types': sorted({o for r in res for o in r.get('op_types', [])}),
      'functions_encoded': funcs,
      'contract_applications': sum(r.get('contracts', 0) for r in res),
      'translation_validated_points': sum(r.get('tv_points', 0) for r in res),
      'reachability_witnesses': sum(r.get('witness', 0) for r in res),
      'real_code_runs': sum(r.get('replays', 0) for r in res),
      'samples': [{'case': r['case'], 'claims': r.get('claims', 0), 'wall_s': round(r.get('wall', 0), 2)}
                  for r in res[:: max(1, len(res) // 8)]][:10],
  }
  for r in res:
    for k, v in (r.get('extra') or {}).items():
      if isinstance(v, (int, float)):
        cov[k] = cov.get(k, 0) + v
  ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
        'wall_s': round(wall, 2),
        'assumptions': assumptions_of(prop),
        'violations': [{'case': r['case'], 'detail': r['detail'], 'replay': r['path']} for r in viol]}
  if only is None:
    with open(os.path.join(ev_dir, prop + '.json'), 'w') as f:
      json.dump(ev, f, indent=1)
  print('%s %s: %d configurations, %d proved, %d undecided, %d obligations, %d solver queries (%.1f s), %.1f s'
        % (prop, tier, len(res), len(proved), len(undecided), cov['obligations'],
           cov['solver_queries'], cov['solver_seconds'], wall))
  for r in undecided:
    print('INCONCLUSIVE property=%s case=%s: %s' % (prop, r['case'], r['detail'][:300]))
  for r in kn:
    print('KNOWN-FINDING: property=%s %s (%s)' % (prop, known[r['case']]['what'], r['case']))
  for r in viol:
    print('case %s: %s' % (r['case'], r['detail'][:500]))
    print('VIOLATION property=%s replay=%s' % (prop, r['path']))
  if viol:
    return 1
  for r in spurious:
    print('ERROR property=%s case=%s: counterexample does not reproduce: %s' % (prop, r['case'], r['detail'][:500]))
  for e in errs:
    print('ERROR property=%s %s' % (prop, e))
  if errs or spurious:
    return 2
  if not res or len(res) < (len(names) if only is None else 1):
    print('ERROR property=%s no cases were run' % prop)
    return 2
  return 0


def assumptions_of(prop):
  common = ['real-number arithmetic (rounding is property C29)',
            'shapes, ranks, batch sizes and options from the grid in checks/%s.py; within a grid point all '
            'real entries and all in-range integers' % prop.lower(),
            'QR, SVD, Cholesky, inverse, roots and normal draws are represented by their contracts']
  return common


def replay(path):
  with open(path) as f:
    d = json.load(f)
  os.environ['VERIF_TIER'] = d['tier']
  mod, cases = load(d['property'], d['tier'])
  from engine import harness
  import numpy as np
  case = [c for c in cases if c.name == d['case']][0]
  if hasattr(case, 'replay'):
    msg = case.replay(d)
    print(msg or 'not reproduced')
    return 1 if msg else 0
  obj = case.setup() if case.setup else None
  try:
    tr = harness.trace(case, obj)
  except Exception as e:
    tr = None
    print('tracing raises %s: %s' % (type(e).__name__, str(e).split('\n')[0]))
  values = [np.array(v) for v in d['values']]
  mode, bad = harness.try_real(case, tr, values, obj)
  for b in bad:
    print('%s run: %s' % (mode, b))
  print('reproduced' if bad else 'not reproduced')
  return 1 if bad else 0


if __name__ == '__main__':
  main()
