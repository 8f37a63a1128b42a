"""C09: indexing and slicing."""
import itertools
import numpy as np
import tensorflow as tf
import t3f
from engine.harness import Case
from engine.sym import TT, ETT, Dense, take
from checks import grid

SLICES = {':': slice(None), '1:': slice(1, None), ':-1': slice(None, -1), '::2': slice(None, None, 2),
          '::-1': slice(None, None, -1), '-2:': slice(-2, None), '0:1': slice(0, 1), ':1': slice(None, 1),
          '1:3': slice(1, 3), '-1:0:-1': slice(-1, 0, -1), ':10': slice(None, 10), '-1:': slice(-1, None),
          '2::-2': slice(2, None, -2), '-3:2': slice(-3, 2), '-3:-1': slice(-3, -1), '1:10': slice(1, 10), '-10:2': slice(-10, 2),
          '10:0:-2': slice(10, 0, -2)}


def one(t, pat, kind='int32'):
  """pat: per axis a key of SLICES, an integer, 't' (symbolic index tensor)."""
  d = len(t.modes)
  batched = t.batch is not None
  sizes = ((t.batch,) if batched else ()) + t.modes
  idx_args = [Dense('i%d' % k, (), kind, lo=-sizes[k], hi=sizes[k]) for k, p in enumerate(pat) if p == 't']

  def key(tensors):
    it = iter(tensors)
    return tuple(next(it) if p == 't' else SLICES[p] if isinstance(p, str) else p for p in pat)

  def prog(a, *ix):
    k = key(ix)
    return a[k[0]] if len(k) == 1 and batched else a[k]

  def spec(a, *ix):
    x = a.dense()
    it = iter(ix)
    ax = 0
    for p in pat:
      if p == 't':
        x = take(x, next(it)[()], ax)
      elif isinstance(p, str):
        x = x[(slice(None),) * ax + (SLICES[p],)]
        ax += 1
      else:
        x = np.take(x, p, axis=ax)
    keep_batch = batched and isinstance(pat[0], str) and pat[0] != 't'
    if len(pat) == 1 and batched:
      return ETT(x, a.modes, a.cols, x.shape[0] if keep_batch else None)
    return ETT(x, x.shape[1:] if keep_batch else x.shape, None, x.shape[0] if keep_batch else None)
  name = '[%s] %s%s' % (', '.join(map(str, pat)), grid.label(t), '' if kind == 'int32' else ' ' + kind)
  return Case(name, [t] + idx_args, prog, spec)


def leaves_axis(pat, off=0):
  return any(isinstance(p, str) and p != 't' for p in pat[off:])


def cases(tier):
  out = []
  P1 = list(SLICES) + [0, 1, -1, -2, 't']
  t = TT('a', (3,), (1, 1))
  out += [one(t, (p,)) for p in SLICES]
  t = TT('a', (4, 3), (1, 2, 1))
  out += [one(t, p) for p in itertools.product(P1, P1) if leaves_axis(p)]
  P3 = [':', '1:', '::-1', '0:1', 1, -1, 't']
  for m, r in (((2, 3, 2), (1, 2, 3, 1)), ((3, 1, 2), (1, 3, 2, 1))):
    t = TT('a', m, r)
    for p in itertools.product(P3, P3, P3):
      if leaves_axis(p) and not any(q == 1 and n == 1 for q, n in zip(p, m)):
        if any(q == '1:' and n == 1 for q, n in zip(p, m)):
          continue
        out.append(one(t, p))
  P4 = [':', '1:', 1, 't'] if tier == 'thorough' else ['1:', 1, 't']
  t = TT('a', (2, 2, 3, 2), (1, 2, 3, 2, 1))
  out += [one(t, p) for p in itertools.product(P4, P4, P4, P4) if leaves_axis(p) and p.count('t') <= 2]
  # batches
  for b in (1, 2, 3):
    for t in grid.both('a', tier, batch=b):
      for p in (':', '::-1', '0:1', ':10', 0, -1, 't'):
        out.append(one(t, (p,)))
      if b == 3:
        out += [one(t, (p,)) for p in ('1:', ':-1', '1:3', '::2', '-1:0:-1', 2, '-3:2', '-3:-1', '1:10', '-10:2', '10:0:-2')]
  PB = [':', '1:', 1, -1, 't', '::-1']
  t = TT('a', (2, 3), (1, 2, 1), batch=3)
  out += [one(t, p) for p in itertools.product(PB, PB, PB) if leaves_axis(p, 1)]
  t = TT('a', (2, 1, 3), (1, 2, 2, 1), batch=2)
  PC = [':', 0, 't'] if tier == 'quick' else PB[:5]
  out += [one(t, p) for p in itertools.product([':', '1:', 1, 't'], PC, [':', 0], PC) if leaves_axis(p, 1)
          and not any(q in (1, '1:') and n == 1 for q, n in zip(p[1:], (2, 1, 3)))]
  t = TT('a', (2, 3), (1, 2, 1), batch=1)
  out += [one(t, p) for p in itertools.product([':', 0, 't', '0:1'], [':', 1, 't'], [':', '1:', -1]) if leaves_axis(p, 1)]
  out += [one(TT('a', (2, 3), (1, 2, 1), dtype='float32'), p) for p in ((':', 1), ('t', '1:'))]
  out += [one(TT('a', (2, 3), (1, 2, 1), batch=2, dtype='float32'), p) for p in ((':', ':', 1), ('t', 't', '1:'), ('1:',))]
  out += [one(TT('a', (2, 3, 2), (1, 2, 3, 1)), p, 'int64') for p in (('t', ':', 't'), (':', 't', ':'))]
  # five cores and large sizes
  t = TT('a', (2, 1, 2, 3, 2), (1, 2, 1, 2, 2, 1))
  out += [one(t, p) for p in ((1, 0, ':', 2, 0), (':', 0, 1, ':', 1), (0, 0, 0, 0, ':'), ('t', ':', 't', ':', 't'),
                              (':', ':', '::-1', '1:', ':'))]
  t = TT('a', (12, 3, 11), (1, 9, 8, 1), sparse=8)
  out += [one(t, p) for p in ((10, ':', '2::-2'), (':', 't', 9), ('1:3', 2, 't'), ('-2:', ':', -11))]
  t = TT('a', (2, 3), (1, 2, 1), batch=9, sparse=8)
  out += [one(t, p) for p in ((8,), ('1:3',), ('2::-2',), ('-3:-1',), ('1:10',), ('-10:2',), ('10:0:-2',), ('-3:-1', ':', '-10:2'), (7, ':', 1), ('::2', 1, ':'))]
  return out
