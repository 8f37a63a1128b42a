"""Writes MANIFEST.json from properties.jsonl and the check modules."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C29': 'Rounding analysis of long float32/float64 computations through TensorFlow kernels (BLAS, LAPACK) '
           'is outside what a solver decides: the kernels are compiled code with unspecified summation order, and '
           'bit-precise floating-point encodings of even a 2x2 SVD do not terminate.',
}
NOTE = ('For every configuration of the grid the claim is proved for all real entries (and all in-range integer '
        'indices); shapes, ranks and options outside the grid are not covered. Kernels (QR, SVD, ...) by contract.')
SPECIAL = {
    'C01': 'All sizes are unbounded symbolic integers; numbers of cores and which metadata is declared are bounded.',
    'C03': 'Symbolic sizes: all positive integers (mathematical, no 32-bit wrap) for up to 4 cores; values on a grid.',
    'C26': NOTE + ' Sizes are hidden from the graph construction by masks.',
    'C27': 'Symbolic sizes of all arguments, both known and unknown to the graph; kinds and numbers of cores on a grid.',
    'C28': NOTE + ' Sequences of up to three calls.',
    'C30': 'Sizes are unbounded symbolic integers, uniform over 12 cores; "static" cases use one fixed size. Element counts '
           'only: peak memory and time of kernels are not modelled.',
    'C21': 'Exact moments over symbolic independent draws; shapes and parameters from a grid.',
}


def main():
  with open(os.path.join(HERE, 'properties.jsonl')) as f:
    props = [json.loads(l) for l in f if l.strip()]
  checks, na = [], []
  for p in props:
    i = p['id']
    if i in NA:
      na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
      cmd = '/opt/venv/bin/python run.py ' + i
      checks.append({'property': i, 'quick_cmd': cmd, 'thorough_cmd': cmd,
                     'evidence_file': 'evidence/%s.json' % i,
                     'technique': 'symbolic execution of the traced real code, claims decided by z3, counterexamples replayed',
                     'level': 'proof', 'level_note': SPECIAL.get(i, NOTE)})
    else:
      na.append({'property': i, 'reason': 'no check yet'})
  m = {'version': 1,
       'setup_cmd': '/opt/venv/bin/python tools/selftest.py',
       'checks': checks, 'not_applicable': na,
       'notes': 'See DESIGN.md. VERIF_TIER selects the grid; nothing is built, every run traces /repo afresh.'}
  with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')


if __name__ == '__main__':
  main()
