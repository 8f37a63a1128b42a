"""C26: sizes that are unknown when the graph is built.

Takes configurations of the other checks, hides sizes of their TT arguments
from the graph construction and makes the same claims about the values.
"""
import copy
from engine.sym import TT, Dense
from checks.derived import pick

# check, first words of the names, masks, configurations per kind (quick, thorough)
# masks: letters n (modes), r (ranks), b (batch size), of all arguments, or of
# the first (1:) or second (2:) only; partly known: i (rows), j (columns), e (modes
# of every second core), q (ranks of every second core, at its left side only)
PART = ('i', 'j', 'e', 'q')
ALL = ('n', 'r', 'nr', '1:r', '2:n', '1:n', '2:r')
SOURCES = [
    ('c02', None, ALL + ('b', 'nrb'), 2, 9),
    ('c04', ('add', '+', '-', 'neg', 'a+a'), ALL + ('b', 'nrb', '1:b', '2:nrb'), 2, 6),
    ('c05', None, ALL + ('b', 'nrb', '1:b', '2:nrb'), 1, 4),
    ('c06', None, ALL + ('b', 'nrb', '1:b', '2:nrb'), 2, 6),
    ('c07', None, ALL + ('b', 'nrb', '1:b', '2:nrb'), 2, 6),
    ('c08', None, ALL + ('b', 'nrb'), 2, 6),
    ('c09', None, ALL + ('b', 'nrb'), 1, 2),
    ('c10', ('gather',), ALL + ('b', 'nrb'), 2, 6),
    ('c11', None, ALL + ('b', 'nrb'), 2, 6),
    ('c12', None, ALL + ('b', 'nrb'), 2, 6),
    ('c14', None, ALL + ('b', 'nrb'), 1, 3),
    ('c15', ('add_n',), ('n', 'r', 'nr'), 2, 6),
    ('c16', ('project', 'project_sum', 'project_matmul', 'symmetry'), ALL, 1, 2),
    ('c17', ('inner', 'add'), ALL, 1, 2),
    ('c19', ('determinant', 'sign', 'log', 'inverse', 'cholesky'), ('n',), 1, 3),
    ('c22', ('cast',), ('n', 'r', 'nr', 'b', 'nrb'), 2, 4),
    ('c22', ('renormalize',), ('n', 'r', 'nr'), 2, 6),
    ('c25', ('l2,', 'cores'), ('n', 'r', 'nr'), 1, 2),
]


def usable(c):
  if c.raises or c.setup or c.stochastic or c.numeric:
    return False
  tts = [a for a in c.args if isinstance(a, TT)]
  return bool(tts) and not any(a.value is not None or a.unknown for a in tts) and \
      not any(a.sparse for a in c.args) and not any(isinstance(a, Dense) and a.unknown for a in c.args)


def refused(src, c, mask):
  """Cases documented to need a size at graph construction."""
  word = c.name.split()[0]
  tts = [a for a in c.args if isinstance(a, TT)]
  batches = [a for a in tts if a.batch is not None]
  if 'b' in mask:
    if not batches:
      return True
    # two batches are combined only if the sizes, or that one is 1, are known
    if src in ('c04', 'c06', 'c07') and len(batches) > 1 and word not in ('neg',):
      return True
    if src == 'c05' and len(batches) > 1 and (':' in mask or len({a.batch for a in batches}) > 1):
      return True
    if word in ('a+a', 'a*a', 'flat_inner(a,a)') or word == 'squeeze':
      return src != 'c05'
  if any(x in mask for x in 'nje') and word in ('gram', 'pairwise') and any(a.cols is not None for a in tts):
    return True
  if 'n' in mask and word == 'trace':
    return True
  if 'q' in mask and src == 'c19':
    return True
  # shapes (and for a concatenation ranks) have to be visibly equal
  if ':' in mask and 'n' in mask and (src in ('c04', 'c05', 'c17') or word in ('concat', 'symmetry')):
    return True
  if ':' in mask and word == 'concat':
    return True
  return False


def hidden(c, mask):
  who, _, what = mask.rpartition(':')
  d = copy.copy(c)
  d.args = [copy.copy(a) for a in c.args]
  changed = False
  tts = [a for a in d.args if isinstance(a, TT)]
  for k, a in enumerate(tts):
    if who and str(k + 1) != who:
      continue
    u = what if a.batch is not None else what.replace('b', '')
    if len(a.modes) == 1:
      u = u.replace('r', '').replace('q', '')
    if a.cols is None:
      u = u.replace('i', '').replace('j', '')
    a.unknown = u
    changed = changed or bool(u)
  return d if changed else None


def cases(tier):
  out = []
  names = set()
  for src, words, masks, few, many in SOURCES:
    for k, c in enumerate(pick(src, words, few if tier == 'quick' else many, usable)):
      # the library converted to graph code by the compiler of tf.function
      d = copy.copy(c)
      d.autograph = True
      d.graph_only = True
      d.name = '%s autograph: %s' % (src.upper(), c.name)
      if d.name not in names and (k % 3 == 0 or tier == 'thorough'):
        names.add(d.name)
        out.append(d)
      for m in masks + (PART if k % 2 == 0 or tier == 'thorough' else ()):
        if ':' in m and sum(isinstance(a, TT) for a in c.args) < 2 or refused(src, c, m):
          continue
        d = hidden(c, m)
        if d is None:
          continue
        d.graph_only = True
        d.name = '%s ?%s: %s' % (src.upper(), m, c.name)
        if d.name not in names:
          names.add(d.name)
          out.append(d)
  return out
