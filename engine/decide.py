"""Deciding claims `out == ref` over all values of the symbols."""
import time
from fractions import Fraction
import numpy as np

from engine import terms as T
from engine.terms import Term, Unsupported
from engine.z3conv import z3, Conv, num
from engine import poly as P


class Stats(object):

  def __init__(self):
    self.queries = 0
    self.unsat = 0
    self.sat = 0
    self.unknown = 0
    self.solver_s = 0.0
    self.paths = 0
    self.cert_terms = 0
    self.axioms_used = 0
    self.entries = 0

  def add(self, o):
    for k, v in o.__dict__.items():
      setattr(self, k, getattr(self, k) + v)


class Verdict(object):

  def __init__(self, kind, detail='', env=None):
    self.kind = kind      # 'proved' | 'refuted' | 'undecided'
    self.detail = detail
    self.env = env or {}  # var Term -> value


class Claim(object):
  __slots__ = ('name', 'out', 'ref', 'rel')

  def __init__(self, name, out, ref, rel='eq'):
    self.name = name
    self.out = out
    self.ref = ref
    self.rel = rel        # 'eq' or 'bool' (out must be true)


def solve(stats, constraints, timeout=60, nra=True):
  """z3 check. Returns ('unsat'|'sat'|'unknown', model)."""
  t = time.time()
  stats.queries += 1
  s = z3.Tactic('qfnra-nlsat').solver() if nra == 'nlsat' else z3.Solver()
  s.set('timeout', int(timeout * 1000))
  for c in constraints:
    s.add(c)
  try:
    r = str(s.check())
  except z3.Z3Exception as e:
    r = 'unknown'
  stats.solver_s += time.time() - t
  setattr(stats, r, getattr(stats, r) + 1)
  return r, (s.model() if r == 'sat' else None)


def model_value(model, zv):
  v = model.eval(zv, model_completion=True)
  if z3.is_int_value(v):
    return v.as_long()
  if z3.is_rational_value(v):
    return Fraction(v.numerator_as_long(), v.denominator_as_long())
  if z3.is_algebraic_value(v):
    a = v.approx(20)
    return Fraction(a.numerator_as_long(), a.denominator_as_long())
  if z3.is_true(v):
    return True
  if z3.is_false(v):
    return False
  return 0


class Problem(object):
  """Claims under assumptions and contract applications."""

  def __init__(self, claims, apps, assumptions, timeout=60, extra_eqs=()):
    self.claims = claims
    self.apps = [(list(a.eqs), list(a.conds), a) for a in apps]
    self.assumptions = list(assumptions)
    self.timeout = timeout
    self.extra_eqs = list(extra_eqs)   # (tag, lhs, rhs) assumed equal
    self.stats = Stats()
    self.max_paths = 4000
    self.orders = (('topdown', False), ('topdown', True), ('bottomup', False), ('bottomup', True))

  # ------------------------------------------------------------- top level
  def run(self):
    self.stats.entries = len(self.claims)
    self._fold_distances()
    groups = self._groups()
    for claims in groups:
      v = self._paths(claims, self.apps, self.extra_eqs, list(self.assumptions), 0)
      if v.kind != 'proved':
        return v
    return Verdict('proved')

  def _fold_distances(self):
    """Run-time checks compare |a - b| with a bound: decide a == b first."""
    for k, c in enumerate(self.claims):
      if c.rel != 'bool' or not isinstance(c.out, Term) or not self.apps:
        continue
      sub, free = {}, {}
      for t in T.postorder([c.out]):
        if t.op == 'ite' and isinstance(t.args[0], Term) and T.abs_arg(t) is not None:
          free[t] = T.var('abs%d' % len(free))
          d = T.abs_arg(t)
          rel = self._relevant([Claim('', d, 0)], self.apps, self.extra_eqs)
          if rel and not any(u.op == 'ite' for u in T.postorder([d])):
            if self._leaf_cert([Claim('difference', d, 0)], rel, self.extra_eqs, self.assumptions).kind == 'proved':
              sub[t] = 0
      if sub:
        new = T.substitute([c.out], {**free, **sub})[0]
        weak = Claim(c.name, new, c.ref, c.rel)
        if new is True or self._leaf_plain([weak], [T.le(0, v) for v in free.values()]).kind == 'proved':
          self.claims[k] = Claim(c.name, True, c.ref, c.rel)
        else:
          self.claims[k] = Claim(c.name, T.substitute([c.out], sub)[0], c.ref, c.rel)

  def _groups(self):
    """Claims with the same branching conditions are decided together."""
    g = {}
    for c in self.claims:
      if c.rel == 'bool':
        key = ('b', id(c))
      else:
        key = tuple(sorted(t.args[0].id for t in T.postorder([c.out, c.ref]) if t.op == 'ite'))
      g.setdefault(key, []).append(c)
    return list(g.values())

  def _all_terms(self, claims, apps, extra):
    roots = []
    for c in claims:
      roots += [c.out, c.ref]
    if apps:
      rel = self._relevant(claims, apps, extra)
      for eqs, conds, a in rel:
        for _, l, r in eqs:
          roots += [l, r]
    for _, l, r in extra:
      roots += [l, r]
    return roots

  def _relevant(self, claims, apps, extra):
    """Apps whose outputs occur (transitively) in the claims."""
    need = set()
    roots = []
    for c in claims:
      roots += [c.out, c.ref]
    for _, l, r in extra:
      roots += [l, r]
    for v in T.variables(roots):
      need.add(v.id)
    rel = []
    for eqs, conds, a in reversed(apps):
      outs = [x for o in a.outs for x in o.reshape(-1) if isinstance(x, Term)]
      if any(x.id in need for x in outs) or self._input_in(a, need):
        rel.append((eqs, conds, a))
        for _, l, r in eqs:
          for v in T.variables([l, r]):
            need.add(v.id)
    rel.reverse()
    return rel

  @staticmethod
  def _input_in(a, need):
    return False

  # ---------------------------------------------------------------- paths
  def _paths(self, claims, apps, extra, assum, depth):
    roots = self._all_terms(claims, apps, extra)
    cond = None
    for t in T.postorder(roots):
      if t.op == 'ite':
        c = t.args[0]
        if not any(u.op == 'ite' for u in T.postorder([c])):
          # prefer an atomic condition
          for u in T.postorder([c]):
            if u.op in ('eq', 'lt', 'le'):
              c = u
              break
          cond = c
          break
    if cond is None:
      self.stats.paths += 1
      if self.stats.paths > self.max_paths:
        return Verdict('undecided', 'too many paths')
      return self._leaf(claims, apps, extra, assum)
    conv = Conv()
    given = [a for a in assum if isinstance(a, Term)]
    base = [conv(a) for a in given]
    for eqs, conds, a in self._relevant(claims, apps, extra):
      base += [conv(c) for c in conds]
      if a.kind in ('root', 'recip'):
        base += [conv(l) == conv(r) for _, l, r in eqs]
    dead = {val for val in (True, False) if given and self._linear_unsat(assum, cond if val else T.not_(cond))}
    for val in (True, False):
      if val in dead:
        continue
      lit = cond if val else T.not_(cond)
      if not dead:
        r, _ = solve(self.stats, base + [conv(lit)], min(5, self.timeout))
        if r == 'unsat':
          continue
      sub = {cond: val}
      # bind integer variables fixed by an equality
      if val and cond.op == 'eq':
        a, b = cond.args
        if isinstance(b, Term) and not isinstance(a, Term):
          a, b = b, a
        if isinstance(a, Term) and a.op == 'var' and not isinstance(b, Term):
          sub[a] = b
      nc, na, ne, nass = self._subst(claims, apps, extra, assum, sub)
      v = self._paths(nc, na, ne, nass + [lit], depth + 1)
      if v.kind != 'proved':
        return v
    return Verdict('proved')

  def _linear_unsat(self, assum, lit):
    """Assumptions and literal contradict each other already when every
    monomial is taken for an independent real number."""
    atoms = []
    for a in list(assum) + [lit]:
      neg = False
      while isinstance(a, Term) and a.op == 'not':
        a, neg = a.args[0], not neg
      if isinstance(a, Term) and a.op in ('le', 'lt', 'eq') and not any(u.op == 'ite' for u in T.postorder([a])):
        atoms.append((a, neg))
    vs = T.variables([a for a, _ in atoms])
    if any(v.sort != 'R' for v in vs):
      return False
    ring = P.Ring({v.id: k for k, v in enumerate(sorted(vs, key=lambda v: v.id))})
    cons = []
    try:
      for a, neg in atoms:
        p = dict(ring.expand(a.args[0]))
        P.padd(p, ring.expand(a.args[1]), -1)
        if len(p) > 500:
          continue
        e = z3.Sum([num(c) * z3.Real('m' + '_'.join(map(str, m))) if m else num(c) for m, c in p.items()]) \
            if p else z3.RealVal(0)
        q = e <= 0 if a.op == 'le' else e < 0 if a.op == 'lt' else e == 0
        cons.append(z3.Not(q) if neg else q)
    except (Unsupported, P.TooBig):
      return False
    r, _ = solve(self.stats, cons, 2)
    return r == 'unsat'

  @staticmethod
  def _subst(claims, apps, extra, assum, sub):
    roots = []
    for c in claims:
      roots += [c.out, c.ref]
    n1 = len(roots)
    for eqs, conds, a in apps:
      for _, l, r in eqs:
        roots += [l, r]
      roots += conds
    for _, l, r in extra:
      roots += [l, r]
    new = T.substitute(roots, sub)
    it = iter(new)
    nc = [Claim(c.name, next(it), next(it), c.rel) for c in claims]
    na = []
    for eqs, conds, a in apps:
      e = [(tag, next(it), next(it)) for tag, _, _ in eqs]
      cs = [next(it) for _ in conds]
      na.append((e, [c for c in cs if isinstance(c, Term)], a))
    ne = [(tag, next(it), next(it)) for tag, _, _ in extra]
    return nc, na, ne, assum

  # ----------------------------------------------------------------- leaf
  def _leaf(self, claims, apps, extra, assum):
    rel = self._relevant(claims, apps, extra)
    if not rel and not extra:
      return self._leaf_plain(claims, assum)
    if any(c.rel == 'bool' for c in claims):
      return self._leaf_bool(claims, rel, extra, assum)
    v = self._leaf_cert(claims, rel, extra, assum)
    if v.kind == 'undecided' and self._small(claims, rel):
      w = self._leaf_direct(claims, rel, extra, assum)
      if w.kind != 'undecided':
        return w
    return v

  @staticmethod
  def _neg(conv, c):
    if c.rel == 'bool':
      return z3.Not(conv(c.out)) if isinstance(c.out, Term) else z3.BoolVal(not c.out)
    a, b = conv(c.out), conv(c.ref)
    if z3.is_int(a) and z3.is_real(b):
      a = z3.ToReal(a)
    if z3.is_real(a) and z3.is_int(b):
      b = z3.ToReal(b)
    return a != b

  def _leaf_plain(self, claims, assum):
    conv = Conv()
    base = [conv(a) for a in assum if isinstance(a, Term)]
    if any(a is False for a in assum):
      return Verdict('proved')
    hasint = any(v.sort != 'R' for v in T.variables(
        [x for c in claims for x in (c.out, c.ref)] + [a for a in assum if isinstance(a, Term)]))
    chunk = 64
    for i in range(0, len(claims), chunk):
      part = claims[i:i + chunk]
      r, m = solve(self.stats, base + [z3.Or([self._neg(conv, c) for c in part])],
                   self.timeout, nra=True if hasint else 'nlsat')
      if r == 'unsat':
        continue
      if r == 'unknown':
        for c in part:
          r, m = solve(self.stats, base + [self._neg(conv, c)], self.timeout,
                       nra=True if hasint else 'nlsat')
          if r != 'unsat':
            break
        if r == 'unsat':
          continue
      if r == 'sat':
        env = {}
        for v in T.variables([x for c in part for x in (c.out, c.ref)] +
                             [a for a in assum if isinstance(a, Term)]):
          env[v] = model_value(m, conv(v))
        return Verdict('refuted', part[0].name, env)
      return Verdict('undecided', 'solver: unknown at ' + part[0].name)
    return Verdict('proved')

  def _leaf_bool(self, claims, rel, extra, assum):
    """Boolean claims: with more and more of the contract facts."""
    for c in claims:
      if c.out is True:
        continue
      vs = {v.id for v in T.variables([c.out])}
      near = [(e, d, a) for e, d, a in rel if any(
          isinstance(x, Term) and x.id in vs for o in a.outs for x in o.reshape(-1))]
      verdict = None
      for level in (0, 1, 2):
        conv = Conv()
        base = [conv(a) for a in assum if isinstance(a, Term)]
        use = near if level < 2 else rel
        for eqs, conds, a in use:
          base += [conv(q) for q in conds if isinstance(q, Term)]
          if level:
            base += [conv(l) == conv(r) for _, l, r in eqs]
        base += [conv(l) == conv(r) for _, l, r in extra]
        r, m = solve(self.stats, base + [self._neg(conv, c)], min(20, self.timeout),
                     nra='nlsat' if level else True)
        if r == 'unsat':
          verdict = None
          break
        verdict = Verdict('undecided', 'solver: %s at %s' % (r, c.name))
        if r == 'sat' and level == 2:
          env = {}
          for v in T.variables([c.out] + [x for e, _, _ in rel for _, l, q in e for x in (l, q)]):
            env[v] = model_value(m, conv(v))
          return Verdict('refuted', c.name, env)
      if verdict is not None:
        return verdict
    return Verdict('proved')

  @staticmethod
  def _small(claims, rel):
    return sum(len(e) for e, _, _ in rel) <= 12

  def _leaf_direct(self, claims, rel, extra, assum):
    """Plain NRA query with the contract equations as hypotheses."""
    conv = Conv()
    base = [conv(a) for a in assum if isinstance(a, Term)]
    for eqs, conds, a in rel:
      base += [conv(l) == conv(r) for _, l, r in eqs]
      base += [conv(c) for c in conds]
    base += [conv(l) == conv(r) for _, l, r in extra]
    for c in claims:
      r, m = solve(self.stats, base + [self._neg(conv, c)], min(5, self.timeout), nra='nlsat')
      if r == 'sat':
        env = {}
        for v in T.variables([c.out, c.ref] + [x for e, _, _ in rel for _, l, q in e for x in (l, q)]):
          env[v] = model_value(m, conv(v))
        return Verdict('refuted', c.name, env)
      if r != 'unsat':
        return Verdict('undecided', 'solver: unknown at ' + c.name)
    return Verdict('proved')

  # ---------------------------------------------------------- certificates
  def _leaf_cert(self, claims, rel, extra, assum):
    reason = ''
    for c in claims:
      if c.rel == 'bool':
        return Verdict('undecided', 'boolean claim with contracts')
    for order in self.orders:
      try:
        v = self._cert(claims, rel, extra, assum, *order)
      except (P.TooBig, Unsupported) as e:
        reason += '%s: %s; ' % (order[0], e)
        continue
      if v.kind == 'proved':
        return v
      reason += '%s: %s; ' % (order[0], v.detail)
    return Verdict('undecided', reason)

  def _cert(self, claims, rel, extra, assum, order, complete=False):
    roots = []
    for c in claims:
      roots += [c.out, c.ref]
    for eqs, _, _ in rel:
      for _, l, r in eqs:
        roots += [l, r]
    for _, l, r in extra:
      roots += [l, r]
    atoms = [t for t in T.postorder(roots) if t.op in ('var', 'log')]
    level = {}
    for k, (eqs, conds, a) in enumerate(rel):
      for o in a.outs:
        for x in o.reshape(-1):
          if isinstance(x, Term):
            level[x.id] = k + 1
    def key(v):
      l = level.get(v.id, 0)
      return (-l if order == 'topdown' else l, -v.id)
    atoms.sort(key=key)
    ring = P.Ring({v.id: i for i, v in enumerate(atoms)})
    axioms = []
    eqlist = []
    # positive facts first: substitutions for zero-valued symbols etc.
    for tag, l, r in extra:
      eqlist.append((l, r))
      axioms.append((P.padd(dict(ring.expand(l)), ring.expand(r), -1), len(eqlist) - 1))
    for eqs, conds, a in rel:
      for tag, l, r in eqs:
        eqlist.append((l, r))
        axioms.append((P.padd(dict(ring.expand(l)), ring.expand(r), -1), len(eqlist) - 1))
    nbase = len(eqlist)
    red = P.Reducer(axioms)
    derived = []
    off = len(extra)
    for eqs, conds, a in rel:
      for start in self._derive(ring, a, eqs, off, rel, complete):
        pol, combo = start
        cert = {}
        rest = red.reduce(pol, cert=cert)
        if not rest or not max(rest):
          continue
        for ident, cof in cert.items():
          self._unfold(combo, ident, cof, nbase, derived, -1)
        derived.append((rest, combo))
        red.add(rest, nbase + len(derived) - 1)
      if complete:
        self._complete(ring, eqs, off, red, nbase, derived)
      off += len(eqs)
    inv = {i: v for i, v in enumerate(atoms)}
    conv = Conv()
    # Quick refusal: find a claim that does not reduce to zero.
    neg = []
    for c in claims:
      if c.out is c.ref:
        continue
      goal = P.padd(dict(ring.expand(c.out)), ring.expand(c.ref), -1)
      cert = {}
      rest = red.reduce(goal, cert=cert)
      if rest:
        return Verdict('undecided', 'no certificate for %s (%d monomials left)' % (c.name, len(rest)))
      full = {}
      for ident, cof in cert.items():
        self._unfold(full, ident, cof, nbase, derived, 1)
      cert = full
      comb = []
      for ident, cof in cert.items():
        if not cof:
          continue
        l, r = eqlist[ident]
        self.stats.axioms_used += 1
        self.stats.cert_terms += len(cof)
        comb.append(self._z(cof, inv, conv) * (conv(l) - conv(r)))
      neg.append(conv(c.out) - conv(c.ref) - (z3.Sum(comb) if comb else z3.RealVal(0)) != 0)
    # The identity goal == sum cofactor*(lhs-rhs) is checked by the solver.
    for i in range(0, len(neg), 16):
      r, _ = solve(self.stats, [z3.Or(neg[i:i + 16])], self.timeout, nra='nlsat')
      if r != 'unsat':
        return Verdict('undecided', 'certificate check: ' + r)
    return Verdict('proved')

  @staticmethod
  def _unfold(into, ident, cof, nbase, derived, sign):
    """Add sign * cof * axiom[ident], derived axioms replaced by base ones."""
    if ident < nbase:
      P.padd(into.setdefault(ident, {}), cof, sign)
      return
    for i2, c2 in derived[ident - nbase][1].items():
      P.padd(into.setdefault(i2, {}), P.pmul(cof, c2), sign)

  def _complete(self, ring, eqs, off, red, nbase, derived):
    """Consequences of the orthonormality equations of one application that
    make their reduction independent of the order of the steps."""
    for kind in sorted({tag for tag, _, _ in eqs if tag.startswith('orth')}):
      group = []
      for k, (tag, l, r) in enumerate(eqs):
        if tag == kind:
          p = P.padd(dict(ring.expand(l)), ring.expand(r), -1)
          if p and max(p):
            group.append((p, {off + k: {(): 1}}))
      pairs = [(i, j) for i in range(len(group)) for j in range(i)]
      deg = 4 if len(group) <= 3 else 3
      while pairs and len(group) < 40:
        i, j = pairs.pop(0)
        (f, cf), (g, cg) = group[i], group[j]
        lf, lg = max(f), max(g)
        top = P.lcm(lf, lg)
        if len(top) > deg or len(top) == len(lf) + len(lg):
          continue
        a = {P.divides(lf, top): Fraction(1) / f[lf]}
        b = {P.divides(lg, top): Fraction(-1) / g[lg]}
        pol = P.padd(P.pmul(a, f), P.pmul(b, g))
        cert = {}
        rest = red.reduce(pol, cert=cert)
        if not rest or not max(rest):
          continue
        combo = {}
        for m, c in ((a, cf), (b, cg)):
          for ident, cof in c.items():
            P.padd(combo.setdefault(ident, {}), P.pmul(m, cof))
        for ident, cof in cert.items():
          self._unfold(combo, ident, cof, nbase, derived, -1)
        pairs += [(len(group), k) for k in range(len(group))]
        group.append((rest, combo))
        derived.append((rest, combo))
        red.add(rest, nbase + len(derived) - 1)

  def _derive(self, ring, a, eqs, off, rel, complete):
    """Consequences of the contract equations that help the reduction.

    Yields (polynomial, {axiom index: cofactor}) with polynomial equal to the
    combination; the caller reduces it further.
    """
    if a.kind == 'svd':
      # energy: sum of squared inputs == sum of squared singular values
      pol, combo = {}, {}
      for k, (tag, l, r) in enumerate(eqs):
        if tag == 'fact':
          L, R = ring.expand(l), ring.expand(r)
          P.padd(pol, P.pmul(L, L))
          P.padd(pol, P.pmul(R, R), -1)
          combo[off + k] = P.padd(dict(L), R)
      yield pol, combo
    if a.kind == 'qr':
      m, n = a.inp.shape
      facts = {}
      k = 0
      for idx, (tag, l, r) in enumerate(eqs):
        if tag == 'fact':
          facts[divmod(k, n)] = (off + idx, l, r)
          k += 1
      if complete and len(facts) == m * n:
        # A'A == R'R, its trace, and Q'A == R
        grams = {}
        for p in range(n):
          for q in range(p, n):
            pol, combo = {}, {}
            for i in range(m):
              (ip, lp, rp), (iq, lq, rq) = facts[i, p], facts[i, q]
              lp, rp, lq, rq = (ring.expand(t) for t in (lp, rp, lq, rq))
              P.padd(pol, P.pmul(lp, lq))
              P.padd(pol, P.pmul(rp, rq), -1)
              # lp lq - rp rq == lq (lp - rp) + rp (lq - rq)
              P.padd(combo.setdefault(ip, {}), lq)
              P.padd(combo.setdefault(iq, {}), rp)
            grams[p, q] = (pol, combo)
        pol, combo = {}, {}
        for p in range(n):
          P.padd(pol, grams[p, p][0])
          for ident, cof in grams[p, p][1].items():
            P.padd(combo.setdefault(ident, {}), cof)
        yield pol, combo
        if n > 1:
          for p, q in sorted(grams):
            pol, combo = grams[p, q]
            yield dict(pol), {i: dict(c) for i, c in combo.items()}
        Q = a.outs[0]
        for k in range(Q.shape[1]):
          for j in range(n):
            pol, combo = {}, {}
            for i in range(m):
              ident, l, r = facts[i, j]
              c = ring.expand(Q[i, k])
              P.padd(pol, P.pmul(c, P.padd(dict(ring.expand(l)), ring.expand(r), -1)))
              P.padd(combo.setdefault(ident, {}), c)
            yield pol, combo
      # left division by an earlier invertible triangular factor
      for _, _, b in rel:
        if b is a:
          break
        if b.kind != 'qr' or len(b.outs) < 3:
          continue
        ri = b.outs[2]
        q = ri.shape[0]
        rv = {x.id for x in b.outs[1].reshape(-1) if isinstance(x, Term)}
        if not any(v.id in rv for v in T.variables(list(a.inp.reshape(-1)))):
          continue
        for layout in self._layouts(m, n, q):
          for cells in layout:
            for i in range(q):
              pol, combo = {}, {}
              for j, cell in enumerate(cells):
                c = ring.expand(ri[i, j])
                if not c:
                  continue
                ident, l, r = facts[cell]
                P.padd(pol, P.pmul(c, P.padd(dict(ring.expand(l)), ring.expand(r), -1)))
                combo[ident] = dict(c)
              yield pol, combo

  @staticmethod
  def _layouts(m, n, q):
    """Ways in which an axis of size q sits in the rows or columns."""
    if m % q == 0:
      w = m // q
      yield [[(j * w + t, c) for j in range(q)] for t in range(w) for c in range(n)]

  @staticmethod
  def _z(p, inv, conv):
    """Polynomial as a solver term, in nested form x*(...) + y*(...) + c."""
    trie = {}
    for m, c in p.items():
      node = trie
      for x in m:
        node = node.setdefault(x, {})
      node[None] = c
    if not trie:
      return z3.RealVal(0)
    ctx = z3.main_ctx()
    ref = ctx.ref()
    mk_mul, mk_add, inc, dec = (_raw(n) for n in ('Z3_mk_mul', 'Z3_mk_add', 'Z3_inc_ref', 'Z3_dec_ref'))
    ast = {}
    consts = {}
    made = []

    def nary(f, parts):
      r = f(ref, len(parts), (z3.Ast * len(parts))(*parts))
      inc(ref, r)
      made.append(r)
      return r

    def build(node):
      parts = []
      for x, sub in node.items():
        if x is None:
          if sub not in consts:
            consts[sub] = z3.RatVal(Fraction(sub).numerator, Fraction(sub).denominator)
          parts.append(consts[sub].as_ast())
          continue
        if x not in ast:
          z = conv(inv[x])
          ast[x] = z3.ToReal(z) if z3.is_int(z) else z
        if len(sub) == 1 and sub.get(None) == 1:
          parts.append(ast[x].as_ast())
          continue
        parts.append(nary(mk_mul, [ast[x].as_ast(), build(sub)]))
      return parts[0] if len(parts) == 1 else nary(mk_add, parts)
    res = z3.ArithRef(build(trie), ctx)
    for r in made:
      dec(ref, r)
    return res


def _raw(name):
  """The library function without the wrapper's checks."""
  f = getattr(z3, name)
  return f.__defaults__[0].f if f.__defaults__ and hasattr(f.__defaults__[0], 'f') else f
