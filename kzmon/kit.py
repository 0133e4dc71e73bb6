"""Small helpers shared by the checks."""
import io
import json

from . import gen, ref
from .env import B, S, errors, kz  # noqa: F401


def opened(mon, cls, ks):
  return mon.must('reading the key set with %s' % cls.__name__, cls, ref.MemReader(ks))


def rejected(o):
  """A call that must not accept: KeyczarError, False or None."""
  if o.ok:
    return o.value is None or o.value is False
  return isinstance(o.exc, errors.KeyczarError)


def refused(o):
  return not o.ok and isinstance(o.exc, errors.KeyczarError)


def set_byte(b, i, v):
  return b[:i] + bytes([v]) + b[i + 1:]


def flip(b, i, mask):
  return b[:i] + bytes([b[i] ^ mask]) + b[i + 1:]


def rank(vals):
  """Rank over GF(2) of byte strings, each with a constant 1 appended."""
  basis = {}
  for v in vals:
    x = int.from_bytes(v, 'big') * 2 + 1
    while x:
      top = x.bit_length()
      if top not in basis:
        basis[top] = x
        break
      x ^= basis[top]
  return len(basis)


def cancelling(rng, b):
  """Changes at the end of b whose differences cancel each other in a sum, a product or an exclusive or."""
  tail = min(20, len(b))
  out = []
  if tail < 2:
    return out
  for d in ((0x80, 0x80), (1, 0xff), (1, 1), (2, 0xfe), (0x40, 0xc0), (0xff, 0xff), (0x7f, 0x81)):
    i, j = rng.sample(range(len(b) - tail, len(b)), 2)
    out.append(flip(flip(b, i, d[0]), j, d[1]))
    m = bytearray(b)
    m[i], m[j] = (m[i] + d[0]) & 255, (m[j] - d[0]) & 255
    out.append(bytes(m))
    m = bytearray(b)
    m[i], m[j] = m[j], m[i]
    out.append(bytes(m))
  out.append(b[:-tail] + b[-tail:][::-1])
  out.append(b[:-tail] + bytes(sorted(b[-tail:])))
  out.append(b[:-tail] + b[-1:] + b[-tail:-1])
  return [m for m in out if m != b]


def mutants(rng, b, n):
  """n random multi-edit mutants of b, all different from b."""
  out = cancelling(rng, b)
  rng.shuffle(out)
  del out[n // 2:]
  while len(out) < n:
    m = bytearray(b)
    for _ in range(rng.choice((1, 1, 2, 3, 6))):
      op = rng.randrange(7)
      i = rng.randrange(len(m) + 1)
      if op == 0 and i < len(m):
        m[i] ^= 1 << rng.randrange(8)
      elif op == 1 and i < len(m):
        m[i] = rng.randrange(256)
      elif op == 2 and i < len(m):
        del m[i:i + rng.choice((1, 1, 4, 16, 20))]
      elif op == 3:
        m[i:i] = bytes(rng.randrange(256) for _ in range(rng.choice((1, 4, 16))))
      elif op == 4:
        j = rng.randrange(len(m) + 1)
        m[i:i] = m[j:j + rng.choice((1, 16, 20, 32))]
      elif op == 5 and len(m) > 1:
        j = rng.randrange(len(m))
        i = i % len(m)
        m[i], m[j] = m[j], m[i]
      elif op == 6:
        del m[i:]
      if not m:
        m = bytearray(b'\0')
    if bytes(m) != b:
      out.append(bytes(m))
  return out


class Source(object):
  """A text input stream that misbehaves within its contract."""

  def __init__(self, data, rng=None, mode='plain', pauses=()):
    # mode 'pause': no data for a moment exactly at the given positions
    self.data, self.pos, self.rng, self.mode = data, 0, rng, mode
    self.pauses = sorted(pauses)
    self.nones = 0
    self.blocked = 0
    self.shorts = 0
    self.eofs = 0

  def read(self, n=-1):
    left = len(self.data) - self.pos
    if self.mode in ('none', 'blockingerror', 'mixed') and self.nones < 3 and (
        self.rng.random() < .4) and not self.eofs:
      self.nones += 1
      self.blocked += 1
      if self.mode == 'blockingerror' or (self.mode == 'mixed' and self.rng.random() < .5):
        raise io.BlockingIOError(11, 'would block')
      return None
    self.nones = 0
    if n is None or n < 0:
      n = left
    if self.pauses:
      if self.pauses[0] <= self.pos:
        del self.pauses[0]
        self.blocked += 1
        return None
      n = min(n, self.pauses[0] - self.pos)
    if self.mode in ('short', 'none', 'blockingerror', 'mixed') and n > 1 and left:
      m = self.rng.choice((1, n, self.rng.randrange(1, n + 1), min(n, 3)))
      if m < min(n, left):
        self.shorts += 1
      n = m
    elif self.mode == 'one' and n > 1:
      n = 1
      self.shorts += 1
    out = self.data[self.pos:self.pos + n]
    self.pos += len(out)
    if not out:
      self.eofs += 1
    return out


class Sink(object):
  """A text output stream that records its writes."""

  def __init__(self):
    self.parts = []
    self.flushes = 0
    self.closed = False

  def write(self, s):
    if not isinstance(s, str):
      raise TypeError('write() argument must be str, not %s' % type(s).__name__)
    self.parts.append(s)
    return len(s)

  def flush(self):
    self.flushes += 1

  def close(self):
    self.closed = True

  def value(self):
    return ''.join(self.parts)


def needles(secret):
  """Byte patterns that betray (a good part of) the secret."""
  import base64
  out = []
  secret = secret.lstrip(b'\0') or secret
  if len(secret) < 12:
    return out
  for part in (secret[:24], secret[-24:]):
    out.append(('raw', part[:16]))
    out.append(('utf-8', part[:16].decode('latin-1').encode('utf-8')))
    out.append(('hex', part.hex().encode()))
    out.append(('HEX', part.hex().upper().encode()))
    out.append(('escaped', repr(part[:16])[2:-1].encode()))
    text = part[:16].decode('latin-1')
    out.append(('string literal', repr(text)[1:-1].encode('latin-1')))
    out.append(('string literal', repr(text)[1:-1].encode('utf-8')))
    out.append(('json', json.dumps(text)[1:-1].encode()))
    out.append(('list', ', '.join(str(b) for b in part[:12]).encode()))
    for shift in range(3):
      t = base64.b64encode(b'\0' * shift + part)
      skip = (shift * 8 + 5) // 6
      n = (shift + len(part)) * 8 // 6
      t = t[skip:n - 1][:18]
      out.append(('base64', t))
      out.append(('base64url', t.replace(b'+', b'-').replace(b'/', b'_')))
  dec = str(int.from_bytes(secret, 'big')).encode()
  if len(dec) > 24:
    out.append(('decimal', dec))
  return out


def leaks(blob, secrets):
  """Names of the forms in which one of the secrets appears in blob."""
  import base64
  import re
  found = []
  blobs = [blob]
  for t in re.findall(rb'[A-Za-z0-9_\-+/]{32,}', blob):
    try:
      blobs.append(base64.b64decode(t.replace(b'-', b'+').replace(b'_', b'/') + b'=' * (-len(t) % 4)))
    except ValueError:
      pass
  for s in secrets:
    for name, n in needles(s):
      if any(n in b for b in blobs):
        found.append(name)
  return found
