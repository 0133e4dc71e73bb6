"""Finds pairs of AES and HMAC keys that have the same key identifier (a birthday search); writes fixtures/twins.json."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kzmon import gen, ref  # noqa: E402

out = {'aes128': [], 'aes256': [], 'hmac': []}
for kind in sorted(out):
  seen, i = {}, 0
  while len(out[kind]) < 3:
    k = gen.key('%s:twin%d' % (kind, i))
    if k.id in seen:
      out[kind].append([seen[k.id], i])
    seen[k.id] = i
    i += 1
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fixtures', 'twins.json'), 'w') as f:
  json.dump(out, f)
