"""Provenance of fixtures/rsa_zero.json: messages whose RSA signatures begin with several zero bytes (minutes on 8 cores)."""
import json
import multiprocessing
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kzmon import gen, ref


def search(job):
  spec, zeros, tail, part = job
  k = gen.key(spec)
  i = part
  while True:
    m = b'%s %d' % (spec.encode(), i)
    if k.raw_private(ref.b2i(ref.emsa(m + tail, k.k))) >> 8 * (k.k - zeros) == 0:
      return {'key': spec, 'msg': m.decode(), 'zeros': zeros, 'versioned': bool(tail)}
    i += 8


if __name__ == '__main__':
  out = []
  with multiprocessing.Pool(8) as pool:
    for spec, zeros, tail in (('rsa1024:0', 2, b'\0'), ('rsa1024:1', 2, b''), ('rsa512:0', 2, b'\0'), ('rsa512:1', 2, b''),
                              ('rsa2048:0', 2, b'\0'), ('rsaedge:0', 2, b'\0'), ('rsaedge:2', 2, b'\0'), ('rsa512:0', 3, b'\0'), ('rsa512:1', 3, b'')):
      it = pool.imap_unordered(search, [(spec, zeros, tail, p) for p in range(8)])
      out.append(next(it))
      print(out[-1], flush=True)
      pool.terminate()
      pool = multiprocessing.Pool(8)
  with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fixtures', 'rsa_zero.json'), 'w') as f:
    json.dump(out, f, indent=1)
