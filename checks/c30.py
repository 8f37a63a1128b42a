"""C30: no operation creates arrays of the size of the dense object."""
import tensorflow as tf
import t3f
from t3f import kronecker as kr, ops
from engine import sizes
from engine.sizes import GrowthCase, Dense as SD


def tt(d, n='n', r='r', m=None, b=None):
  return sizes.TT([n] * d, [1] + [r] * (d - 1) + [1], None if m is None else [m] * d, b)


KNOWN = {'n': 3, 'm': 1, 'k': 1, 'r': 2, 's': 2, 't': 2, 'b': 2, 'c': 3, 'q': 2, 'p': 2}
# 12 modes of size 3 have more elements
LIMIT = 400000


def known(a):
  f = lambda x: KNOWN.get(x, x)
  if isinstance(a, SD):
    return SD([f(x) for x in a.dims], a.dtype)
  return sizes.TT([f(x) for x in a.modes], [f(x) for x in a.ranks], None if a.cols is None else [f(x) for x in a.cols],
                  f(a.batch))


def sparse_shape(x):
  return tf.constant(x.get_shape().as_list(), tf.int64)


# largest degrees: modes, ranks, batch sizes, numbers of rows
DEGREES = {'n': 4, 'm': 4, 'k': 4, 'r': 6, 's': 6, 't': 6, 'b': 2, 'c': 2, 'q': 2, 'p': 4}


def cases(tier):
  out = []

  def put(name, make, prog, unknown=True):
    if unknown:
      out.append(GrowthCase(name, make, prog, DEGREES, d=16 if tier == 'thorough' else 12))
    out.append(GrowthCase('static ' + name, lambda d: [known(a) for a in make(d)], prog, {}, factor=LIMIT))

  for kind, m in (('tensor', None), ('matrix', 'm')):
    for b in (None, 'b', 3):
      t = '%s%s' % (kind, '' if b is None else ' batch %s' % b)
      one = lambda d, m=m, b=b: [tt(d, m=m, b=b)]
      two = lambda d, m=m, b=b: [tt(d, m=m, b=b), tt(d, r='s', m=m)]
      put('add ' + t, two, lambda x, y: x + y)
      put('subtract ' + t, two, lambda x, y: y - x)
      put('multiply ' + t, two, lambda x, y: x * y)
      put('scale ' + t, one, lambda x: [x * 2.0, -x, 0.5 * x])
      put('inner ' + t, two, lambda x, y: t3f.flat_inner(x, y))
      put('norm ' + t, one, lambda x: [t3f.frobenius_norm_squared(x), t3f.frobenius_norm(x)])
      put('norm differentiable ' + t, one, lambda x: t3f.frobenius_norm_squared(x, differentiable=True))
      put('cast ' + t, one, lambda x: t3f.cast(x, tf.float32))
      put('orthogonalize ' + t, one, lambda x: t3f.orthogonalize_tt_cores(x))
      if b != 'b':
        put('renormalize ' + t, one, lambda x: t3f.renormalize_tt_cores(x))
      if b is None:
        put('orthogonalize right to left ' + t, one, lambda x: t3f.orthogonalize_tt_cores(x, left_to_right=False))
      for cap in (1, 3, 10 ** 6):
        put('round to %d ' % cap + t, one, lambda x, cap=cap: t3f.round(x, max_tt_rank=cap))
      if b != 'b':
        put('project ' + t, two, lambda x, y: t3f.project(x, y))
        if b == 3:
          put('sum of projections ' + t, two, lambda x, y: t3f.project_sum(x, y))
          put('tangent inner products ' + t, two, lambda x, y: t3f.pairwise_flat_inner_projected(*[t3f.project(x, y)] * 2))
        else:
          put('add in the tangent space ' + t, lambda d, m=m: [tt(d, m=m), tt(d, r='s', m=m), tt(d, r='t', m=m)],
              lambda x, y, p: t3f.add_n_projected([t3f.project(x, p), t3f.project(y, p)]))
          put('gradient ' + t, two, lambda x, y: t3f.gradients(lambda v: t3f.flat_inner(v, y), x, runtime_check=False), False)
          put('hessian by vector ' + t, two,
              lambda x, y: t3f.hessian_vector_product(lambda v: t3f.flat_inner(v, v), x, y, runtime_check=False), False)
          put('gradient of cores ' + t, two, lambda x, y: tf.gradients(t3f.flat_inner(x, y), list(x.tt_cores)))
      if b is not None:
        put('concat ' + t, lambda d, m=m, b=b: [tt(d, m=m, b=b), tt(d, m=m, b='c')],
            lambda x, y: t3f.concat_along_batch_dim([x, y]))
        put('weights ' + t, lambda d, m=m, b=b: [tt(d, m=m, b=b), SD([b])], lambda x, w: t3f.multiply_along_batch_dim(x, w))
        if m is None:
          put('pairwise ' + t, lambda d, m=m, b=b: [tt(d, m=m, b=b), tt(d, m=m, r='s', b='c')],
              lambda x, y: t3f.pairwise_flat_inner(x, y))
        put('element ' + t, one, lambda x: [x[0], x[0:1]])
      if b is None:
        put('sum of four ' + t, lambda d, m=m: [tt(d, m=m)] * 4, lambda *x: t3f.approximate.add_n(list(x), 3))
      if b == 3:
        put('sum of a batch ' + t, one, lambda x: t3f.approximate.reduce_sum_batch(x, 3), False)
  # matrices
  A = lambda d, b=None: tt(d, m='m', b=b)
  for b in (None, 'b'):
    t = '' if b is None else ' batch'
    put('matmul' + t, lambda d, b=b: [A(d, b), tt(d, n='m', m='k', r='s')], lambda x, y: t3f.matmul(x, y))
    put('transpose' + t, lambda d, b=b: [A(d, b)], lambda x: t3f.transpose(x))
    put('bilinear form' + t, lambda d, b=b: [A(d), tt(d, m=1, r='s', b=b), tt(d, n='m', m=1, r='t', b=b)],
        lambda A, x, y: t3f.bilinear_form(A, x, y))
    put('bilinear form two' + t, lambda d, b=b: [tt(d, m=1, r='s', b=b), A(d), tt(d, n='m', m='k', r='r'), tt(d, n='k', m=1, r='t', b=b)],
        lambda x, A, B, y: ops.bilinear_form_two_mat(x, A, B, y))
  put('gram with a matrix', lambda d: [tt(d, m=1, r='s', b='b'), tt(d, m='n')], lambda x, A: t3f.gram_matrix(x, A))
  put('project_matmul', lambda d: [tt(d, m=1), tt(d, m=1, r='s'), tt(d, m='n', r='t')],
      lambda x, y, A: t3f.project_matmul(x, y, A))
  # indices
  put('gather', lambda d: [tt(d), SD(['q', d], 'int32')], lambda x, i: t3f.gather_nd(x, i))
  put('index', lambda d: [tt(d)], lambda x: x[(0,) + (slice(None),) * (x.ndims() - 2) + (0,)])
  put('slice', lambda d: [tt(d)], lambda x: x[(slice(0, 1),) * x.ndims()])
  put('sparse inner', lambda d: [tt(d), SD(['q', d], 'int64'), SD(['q'])],
      lambda x, i, w: t3f.flat_inner(x, tf.SparseTensor(i, w, sparse_shape(x))), False)
  # products of small matrices
  K = lambda d, b=None: sizes.TT(['p'] * d, [1] * (d + 1), ['p'] * d, b)
  for b in (None, 'b'):
    t = '' if b is None else ' batch'
    one = lambda d, b=b: [K(d, b)]
    put('kronecker determinant' + t, one, lambda x: kr.determinant(x), False)
    put('kronecker log determinant' + t, one, lambda x: kr.slog_determinant(x), False)
    put('kronecker inverse' + t, one, lambda x: kr.inv(x))
    put('kronecker cholesky' + t, one, lambda x: kr.cholesky(x), False)
  # objects made from sizes; the argument only gives the number of cores
  none = lambda d: [SD([d])]
  n = lambda u: [3] * u.shape[0]
  k = lambda u: [2] * u.shape[0]
  for name, f in (('ones', lambda u: t3f.tensor_ones(n(u))), ('zeros', lambda u: t3f.tensor_zeros(n(u))),
                  ('eye', lambda u: t3f.eye(k(u))), ('matrix ones', lambda u: t3f.matrix_ones([k(u), k(u)])),
                  ('matrix zeros', lambda u: t3f.matrix_zeros([k(u), k(u)])),
                  ('random', lambda u: t3f.random_tensor(n(u), 2)),
                  ('random batch', lambda u: t3f.random_tensor_batch(n(u), 2, 2)),
                  ('random matrix', lambda u: t3f.random_matrix([k(u), k(u)], 2)),
                  ('random matrix batch', lambda u: t3f.random_matrix_batch([k(u), k(u)], 2, 2)),
                  ('glorot', lambda u: t3f.glorot_initializer([k(u), k(u)], 2)),
                  ('he', lambda u: t3f.he_initializer([k(u), k(u)], 2)),
                  ('lecun', lambda u: t3f.lecun_initializer([k(u), k(u)], 2)),
                  ('cores', lambda u: t3f.tensor_with_random_cores(n(u), 2)),
                  ('matrix cores', lambda u: t3f.matrix_with_random_cores([k(u), k(u)], 2))):
    put('make ' + name, none, f, False)
  return out
