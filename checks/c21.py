"""C21: encodings are exact inverses."""
import base64
import io
import os
import random
import subprocess

from kzmon import env, gen, kit, ref
from kzmon.env import B, S, errors, util

ID = 'C21'
LEVEL = 'exploration'
RULE = ('one value converted, compared with the reference conversion and converted back: distinct by conversion, value class (length, '
        'leading bytes) and splitting')
REQUIRED = ('base64:exhaustive', 'base64:length', 'base64:whitespace', 'base64:badlength', 'base64:deprecated', 'incremental:encode',
            'incremental:decode', 'incremental:badlength', 'stream:write', 'stream:read', 'pack:one', 'pack:many', 'pack:none', 'pack:truncated', 'bits', 'int:big',
            'int:four', 'xor', 'trim', 'dsasig', 'dsasig:malformed', 'pkcs8:rsa', 'pkcs8:dsa', 'x509:rsa', 'x509:dsa', 'openssl:rsa', 'openssl:dsa',
            'wrong-oid', 'wrong-version', 'wrong-fields', 'emsa', 'mgf', 'hash')
ASSUMPTIONS = ('byte strings are str with code points below 256',)


def cases(rng, tier):
  for i in range(16):
    yield {'k': 'exhaustive', 'part': i}
  for i in range(0, 300, 20):
    yield {'k': 'lengths', 'lo': i, 'salt': rng.randrange(1 << 30)}
  m = 1 if tier == 'quick' else 20
  for i in range(24 * m):
    yield {'k': 'random', 'salt': rng.randrange(1 << 30)}
    yield {'k': 'split', 'salt': rng.randrange(1 << 30)}
    yield {'k': 'pack', 'salt': rng.randrange(1 << 30)}
    yield {'k': 'int', 'salt': rng.randrange(1 << 30)}
    yield {'k': 'asn1', 'salt': rng.randrange(1 << 30), 'n': i}
  yield {'k': 'openssl'}
  for i, n in enumerate(gen.HUGE):
    yield {'k': 'huge', 'n': n, 'salt': i}


def same(mon, what, got, want, key=None, **kw):
  mon.check(got == want, lambda: '%s: got %s, must be %s' % (what, short(got), short(want)), **kw)
  mon.distinct(what.split(' of ')[0], key)


def short(x):
  r = repr(x)
  return r if len(r) < 120 else r[:120] + '...(%d)' % len(x if isinstance(x, (str, bytes)) else r)


def b64_both(mon, b, ev, quiet=False):
  want = ref.b64(b)
  e = util.Base64WSEncode(S(b))
  d = util.Base64WSDecode(want)
  if e != want:
    mon.violate('Base64WSEncode(%s) is %s, must be %s' % (short(b), short(e), short(want)))
  if d != S(b):
    mon.violate('Base64WSDecode(%s) is %s, must be %s' % (short(want), short(d), short(S(b))))
  mon.judged += 2
  mon.event(ev)


def _exhaustive(mon, case):
  part = case['part']
  if part == 0:
    b64_both(mon, b'', 'base64:exhaustive')
    for x in range(256):
      b64_both(mon, bytes([x]), 'base64:exhaustive')
      for q in (util.IntToBin, ):
        same(mon, 'IntToBin', q(x), bin(x)[2:], x)
      same(mon, 'BytesToBin', util.BytesToBin(chr(x)), '{:08b}'.format(x), x)
      same(mon, 'BinToBytes', util.BinToBytes('{:08b}'.format(x)), chr(x), x)
      same(mon, 'BigIntToBytes', util.BigIntToBytes(x), S(ref.i2b(x)), x)
      same(mon, 'BytesToLong', util.BytesToLong(chr(x)), x, x)
  for x in range(part * 16, part * 16 + 16):
    for y in range(256):
      b = bytes([x, y])
      b64_both(mon, b, 'base64:exhaustive')
      n = x << 8 | y
      if util.BytesToLong(S(b)) != n or util.BigIntToBytes(n) != S(ref.i2b(n)) or util.IntToBytes(n) != S(ref.u32(n)):
        mon.violate('integer conversion of %d is wrong' % n)
      if util.BytesToBin(S(b)) != '{:016b}'.format(n) or util.BinToBytes('{:016b}'.format(n)) != S(b):
        mon.violate('bit conversion of %r is wrong' % b)
      mon.judged += 5
    mon.distinct('exhaustive', x)
  mon.event('bits')


def _lengths(mon, case):
  rng = random.Random(case['salt'])
  for n in range(case['lo'], case['lo'] + 20):
    for b in (rng.randbytes(n), b'\0' * n, b'\xff' * n, b'\xfb\xef\xbe' * (n // 3) + b'\xfb' * (n % 3)):
      b64_both(mon, b, 'base64:length')
      _convert(mon, rng, b)
    mon.distinct('length', n)


def _convert(mon, rng, b):
  n = ref.b2i(b)
  same(mon, 'BytesToLong', util.BytesToLong(S(b)), n, len(b))
  same(mon, 'BigIntToBytes', util.BigIntToBytes(n), S(ref.i2b(n)), len(b))
  same(mon, 'BytesToBin', util.BytesToBin(S(b)), ''.join('{:08b}'.format(x) for x in b), len(b))
  same(mon, 'BinToBytes', util.BinToBytes(''.join('{:08b}'.format(x) for x in b)), S(b), len(b))
  same(mon, 'TrimBytes', util.TrimBytes(S(b)), S(b.lstrip(b'\0') or b'\0'), (len(b), b[:1] == b'\0'))
  mon.event('trim')
  k = rng.randrange(20)
  same(mon, 'PadBytes', util.PadBytes(S(b), k), '\0' * k + S(b), k)
  c = rng.randbytes(rng.choice((0, len(b), len(b) + 3, max(0, len(b) - 2))))
  m = max(len(b), len(c))
  want = bytes(x ^ y for x, y in zip(b.rjust(m, b'\0'), c.rjust(m, b'\0')))
  same(mon, 'Xor', util.Xor(S(b), S(c)), S(want), (len(b), len(c)))
  mon.event('xor')
  mon.event('bits')
  same(mon, 'Hash', util.Hash(S(b), S(c)), S(ref.sha1(b + c)), (len(b), len(c)))
  same(mon, 'PrefixHash', util.PrefixHash(S(b), S(c)), S(ref.sha1(ref.u32(len(b)) + b + ref.u32(len(c)) + c)), (len(b), len(c)))
  mon.event('hash')
  ml = rng.choice((0, 1, 19, 20, 21, 40, 41, 107, 300))
  same(mon, 'MGF', util.MGF(S(b), ml), S(ref.mgf1(b, ml)), (len(b), ml))
  mon.event('mgf')
  for size in (512, 768, 1024, 2048, 4096):
    same(mon, 'MakeEmsaMessage', util.MakeEmsaMessage(S(b), size).rjust(size // 8, '\0'), S(ref.emsa(b, size // 8)), size)
  mon.event('emsa')


SPACES = (' ', '\n', '\r\n', '\r', '  ', '\n\n', ' \n ')


def _random(mon, case):
  rng = random.Random(case['salt'])
  for _ in range(40):
    b = gen.message(gen.msg(rng))
    b64_both(mon, b, 'base64:length')
    t = ref.b64(b)
    # line breaks and spaces anywhere
    out = []
    i = 0
    while i < len(t):
      k = rng.choice((1, 3, 4, 5, 64, 76, len(t)))
      out.append(t[i:i + k])
      out.append(rng.choice(SPACES))
      i += k
    s = rng.choice(('', ' ', '\n')) + ''.join(out)
    o = mon.call(util.Base64WSDecode, s)
    mon.check(o.ok and o.value == S(b), lambda: 'Base64 with whitespace does not decode: %r' % o, text=s[:400])
    mon.event('base64:whitespace')
    mon.distinct('whitespace', len(b), s[len(t) // 2:][:3])
    # the length of a text is never one more than a multiple of four
    bad = ''.join(rng.choice('ABCDabcd01-_') for _ in range(rng.randrange(20) * 4 + 1))
    o = mon.call(util.Base64WSDecode, bad if rng.random() < .5 else bad[:1] + '\n' + bad[1:])
    mon.check(not o.ok and isinstance(o.exc, errors.Base64DecodingError), lambda: 'Base64 of %d characters: %r' % (len(bad), o))
    mon.event('base64:badlength')
  b = rng.randbytes(rng.randrange(50))
  same(mon, 'Encode', util.Encode(S(b)), ref.b64(b), len(b))
  same(mon, 'Decode', util.Decode(ref.b64(b)), S(b), len(b))
  mon.event('base64:deprecated')


def pieces(rng, s):
  out = []
  i = 0
  while i < len(s):
    k = rng.choice((0, 1, 1, 2, 3, 4, 5, 7, 8, rng.randrange(1, 100)))
    out.append(s[i:i + k])
    i += k
  return out


def _split(mon, case):
  rng = random.Random(case['salt'])
  for _ in range(25):
    b = gen.message(gen.msg(rng, maxlen=400))
    t = ref.b64(b)
    e = util.BufferedIncrementalBase64WSEncoder()
    got = ''
    ps = pieces(rng, S(b))
    mode = rng.choice(('flush', 'final'))
    for i, p in enumerate(ps):
      last = mode == 'final' and i == len(ps) - 1
      got += mon.must('incremental encode', e.encode, p, *([True] if last else []))[0]
    got += mon.must('flush', e.flush)
    same(mon, 'incremental encoding', got, t, (len(b), len(ps)), pieces=[len(p) for p in ps])
    mon.event('incremental:encode')
    d = util.BufferedIncrementalBase64WSDecoder()
    got = ''
    ps = pieces(rng, t)
    for i, p in enumerate(ps):
      last = mode == 'final' and i == len(ps) - 1
      got += mon.must('incremental decode', d.decode, p, *([True] if last else []))[0]
    got += mon.must('flush', d.flush)
    same(mon, 'incremental decoding', got, S(b), (len(b), len(ps)), pieces=[len(p) for p in ps])
    mon.event('incremental:decode')
    # and streams
    sink = kit.Sink()
    w = util.IncrementalBase64WSStreamWriter(sink)
    for p in pieces(rng, S(b)):
      mon.must('write', w.write, p)
    mon.must('flush', rng.choice((w.flush, w.close)))
    same(mon, 'stream encoding', sink.value(), t, len(b))
    mon.event('stream:write')
    mode = rng.choice(('plain', 'short', 'one', 'none', 'blockingerror', 'mixed'))
    r = util.IncrementalBase64WSStreamReader(io.StringIO(t) if mode == 'plain' else kit.Source(t, rng, mode))
    got = []
    size = rng.choice(('all', 'chars', 'size'))
    for _ in range(20 * len(t) + 100):
      n = rng.choice((1, 2, 3, 4, 5, 16, 100))
      x = mon.must('read', *((r.read,) if size == 'all' else (r.read, -1, n) if size == 'chars' else (r.read, n)))
      if x is None:
        continue
      if size == 'chars':
        mon.check(len(x) <= n, 'read() returned more characters than asked for')
      if x == '':
        break
      got.append(x)
    else:
      mon.violate('reading a Base64 stream does not come to an end')
    same(mon, 'stream decoding', ''.join(got), S(b), (len(b), mode, size))
    mon.event('stream:read')
    # one character too many, wherever the pieces are cut
    bad = ''.join(rng.choice('ABCDabcd01-_') for _ in range(rng.randrange(30) * 4 + 1))
    for how in ('flush', 'final', 'stream'):
      o = mon.call(bad_length, rng, bad, how)
      mon.check(not o.ok and isinstance(o.exc, errors.KeyczarError), lambda: 'incremental decoding (%s) of %d characters: %r' % (how, len(bad), o), text=bad)
      mon.event('incremental:badlength')
      mon.distinct('badlength', how, len(bad))


def bad_length(rng, bad, how):
  got = ''
  if how == 'stream':
    r = util.IncrementalBase64WSStreamReader(kit.Source(bad, rng, rng.choice(('short', 'one', 'none'))))
    for _ in range(100 * len(bad) + 100):
      x = r.read()
      if x == '':
        return got
      got += x or ''
    raise AssertionError('reading does not come to an end')
  d = util.BufferedIncrementalBase64WSDecoder()
  ps = pieces(rng, bad)
  for i, p in enumerate(ps):
    got += d.decode(p, how == 'final' and i == len(ps) - 1)[0]
  return got + d.flush()


def _huge(mon, case):
  rng = random.Random(case['salt'])
  b = gen.message(['rand', case['n'], case['salt']])
  b64_both(mon, b, 'base64:length')
  t = ref.b64(b)
  for piece in (rng.choice((1000, 4096, 4097, 65536)), len(t)):
    e, d = util.BufferedIncrementalBase64WSEncoder(), util.BufferedIncrementalBase64WSDecoder()
    got = ''.join(e.encode(S(b)[i:i + piece])[0] for i in range(0, len(b), piece)) + e.flush()
    same(mon, 'incremental encoding', got, t, (len(b), piece))
    got = ''.join(d.decode(t[i:i + piece])[0] for i in range(0, len(t), piece)) + d.flush()
    same(mon, 'incremental decoding', got, S(b), (len(b), piece))
  for ml in (5119, 5120, 5121, 6000, 70001):
    same(mon, 'MGF', util.MGF(S(b[:20]), ml), S(ref.mgf1(b[:20], ml)), ml)
  same(mon, 'PackByteArray', util.PackByteArray(S(b)), S(ref.u32(len(b)) + b), len(b))
  same(mon, 'UnpackByteArray', util.UnpackByteArray(S(ref.u32(len(b)) + b) + 'x', 0), (S(b), len(b) + 4), len(b))
  same(mon, 'Hash', util.Hash(S(b), S(b)), S(ref.sha1(b + b)), len(b))
  same(mon, 'PrefixHash', util.PrefixHash(S(b), S(b)), S(ref.sha1((ref.u32(len(b)) + b) * 2)), len(b))


def _pack(mon, case):
  rng = random.Random(case['salt'])
  for _ in range(60):
    b = rng.randbytes(rng.choice((0, 1, 2, 4, 16, 255, 256, 257, 65535, 65536, 70000)) if rng.random() < .3 else rng.randrange(40))
    p = util.PackByteArray(S(b))
    same(mon, 'PackByteArray', p, S(ref.u32(len(b)) + b), len(b))
    pre, post = S(rng.randbytes(rng.randrange(9))), S(rng.randbytes(rng.randrange(9)))
    same(mon, 'UnpackByteArray', util.UnpackByteArray(pre + p + post, len(pre)), (S(b), len(pre) + len(p)), (len(b), len(pre), len(post)))
    mon.event('pack:one')
    cut = rng.randrange(len(p))
    o = mon.call(util.UnpackByteArray, pre + p[:cut], len(pre))
    mon.check(not o.ok and isinstance(o.exc, errors.KeyczarError), lambda: 'truncated packed data (%d of %d bytes): %r' % (cut, len(p), o))
    mon.event('pack:truncated')
    many = [rng.randbytes(rng.choice((0, 1, 16, 32, 300))) for _ in range(rng.choice((0, 1, 2, 2, 3, 7)))]
    m = util.PackMultipleByteArrays(*[S(x) for x in many])
    same(mon, 'PackMultipleByteArrays', m, S(ref.u32(len(many)) + b''.join(ref.u32(len(x)) + x for x in many)), [len(x) for x in many])
    same(mon, 'UnpackMultipleByteArrays', util.UnpackMultipleByteArrays(m), [S(x) for x in many], [len(x) for x in many])
    mon.event('pack:many')
    if many and many[-1]:
      o = mon.call(util.UnpackMultipleByteArrays, m[:len(m) - rng.randrange(1, len(many[-1]) + 1)])
      mon.check(not o.ok and isinstance(o.exc, errors.KeyczarError), lambda: 'truncated packed arrays: %r' % o)
  same(mon, 'PackByteArray of None', util.PackByteArray(None), '', None)
  mon.event('pack:none')


def _int(mon, case):
  rng = random.Random(case['salt'])
  for k in list(range(0, 40)) + [63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4096]:
    for n in (2 ** k, 2 ** k - 1, 2 ** k + 1, rng.getrandbits(k + 1), rng.getrandbits(k + 1) >> (k // 2)):
      same(mon, 'BigIntToBytes', util.BigIntToBytes(n), S(ref.i2b(n)), (k, n & 1))
      z = rng.randrange(4)
      same(mon, 'BytesToLong', util.BytesToLong('\0' * z + S(ref.i2b(n))), n, (k, n & 1, z))
      mon.event('int:big')
      if n < 2 ** 32:
        same(mon, 'IntToBytes', util.IntToBytes(n), S(ref.u32(n)), (k, n & 1))
        mon.event('int:four')
      if k < 512:
        same(mon, 'IntToBin', util.IntToBin(n), bin(n)[2:], (k, n & 1))
        bits = bin(n)[2:]
        same(mon, 'BinToBytes', util.BinToBytes(bits), S(n.to_bytes((len(bits) + 7) // 8, 'big')), (k, n & 1))
  for _ in range(60):
    r = rng.choice((rng.getrandbits(160), rng.getrandbits(rng.randrange(1, 160)), 2 ** 159, 2 ** 160 - 1, 127, 128, 255, 256, 0, 1))
    s = rng.choice((rng.getrandbits(160), rng.getrandbits(rng.randrange(1, 160)), 2 ** 159, 1, 0))
    sig = util.MakeDsaSig(r, s)
    want = S(ref.der_seq(ref.der_int(r), ref.der_int(s)))
    same(mon, 'MakeDsaSig', sig, want, (r.bit_length(), s.bit_length()))
    same(mon, 'ParseDsaSig', util.ParseDsaSig(want), (r, s), (r.bit_length(), s.bit_length()))
    mon.event('dsasig')
    bad = rng.choice((S(ref.der_seq(ref.der_int(r))), S(ref.der_seq(*[ref.der_int(r)] * 3)), want[:rng.randrange(len(want))], '',
                      S(ref.der_int(r)), S(ref.der_octets(B(want)))))
    o = mon.call(util.ParseDsaSig, bad)
    mon.check(not o.ok and isinstance(o.exc, errors.KeyczarError), lambda: 'ParseDsaSig of something else: %r' % o, sig=bad)
    mon.event('dsasig:malformed')


RSA_OID = bytes.fromhex('06092a864886f70d010101')
DSA_OID = bytes.fromhex('06072a8648ce380401')


def rsa_params(k):
  return dict(n=k.n, e=k.e, d=k.d, p=k.p, q=k.q, dp=k.d % (k.p - 1), dq=k.d % (k.q - 1), invq=pow(k.q, -1, k.p))


def _asn1(mon, case):
  rng = random.Random(case['salt'])
  k = gen.RSA[rng.choice((512, 768, 1024, 2048, 4096))]
  k = rng.choice(k)
  if rng.random() < .4:
    phi = (k.p - 1) * (k.q - 1)
    for e in (3, 5, 17, 127, 129, 255, 32769, 2 ** 31 + 11):
      try:
        k = ref.RsaK(k.n, e, pow(e, -1, phi), k.p, k.q)
        break
      except ValueError:
        pass
  p = rsa_params(k)
  der = ref.der_seq(ref.der_int(0), ref.der_seq(RSA_OID, b'\x05\0'), ref.der_octets(
      ref.der_seq(ref.der_int(0), *[ref.der_int(p[f]) for f in ('n', 'e', 'd', 'p', 'q', 'dp', 'dq', 'invq')])))
  got = mon.must('ExportRsaPkcs8', util.ExportRsaPkcs8, p)
  same(mon, 'ExportRsaPkcs8', ref.unb64(got), der, (k.size, k.e))
  same(mon, 'ParsePkcs8', mon.must('ParsePkcs8', util.ParsePkcs8, ref.b64(der)), p, (k.size, k.e))
  mon.event('pkcs8:rsa')
  der = ref.der_seq(ref.der_seq(RSA_OID, b'\x05\0'), ref.der_bits(ref.der_seq(ref.der_int(k.n), ref.der_int(k.e))))
  got = mon.must('ExportRsaX509', util.ExportRsaX509, p)
  same(mon, 'ExportRsaX509', ref.unb64(got), der, (k.size, k.e))
  same(mon, 'ParseX509', mon.must('ParseX509', util.ParseX509, ref.b64(der)), {'n': k.n, 'e': k.e}, (k.size, k.e))
  mon.event('x509:rsa')
  d = rng.choice(gen.DSA)
  x = rng.choice((d.x, rng.randrange(1, d.q), rng.randrange(1, 2 ** rng.randrange(1, 150) + 1), 127, 128, 1))
  y = pow(d.g, x, d.p)
  p = dict(p=d.p, q=d.q, g=d.g, x=x, y=y)
  alg = ref.der_seq(DSA_OID, ref.der_seq(ref.der_int(d.p), ref.der_int(d.q), ref.der_int(d.g)))
  der = ref.der_seq(ref.der_int(0), alg, ref.der_octets(ref.der_int(x)))
  got = mon.must('ExportDsaPkcs8', util.ExportDsaPkcs8, p)
  same(mon, 'ExportDsaPkcs8', ref.unb64(got), der, x.bit_length())
  same(mon, 'ParsePkcs8', mon.must('ParsePkcs8', util.ParsePkcs8, ref.b64(der)), dict(p=d.p, q=d.q, g=d.g, x=x), x.bit_length())
  mon.event('pkcs8:dsa')
  der2 = ref.der_seq(alg, ref.der_bits(ref.der_int(y)))
  got = mon.must('ExportDsaX509', util.ExportDsaX509, p)
  same(mon, 'ExportDsaX509', ref.unb64(got), der2, x.bit_length())
  same(mon, 'ParseX509', mon.must('ParseX509', util.ParseX509, ref.b64(der2)), dict(p=d.p, q=d.q, g=d.g, y=y), x.bit_length())
  mon.event('x509:dsa')
  # things that look alike
  other = bytes.fromhex('06072a8648ce3d0201')      # elliptic curves
  bad = [('wrong-oid', util.ParsePkcs8, ref.der_seq(ref.der_int(0), ref.der_seq(other, b'\x05\0'), ref.der_octets(ref.der_int(5)))),
         ('wrong-oid', util.ParseX509, ref.der_seq(ref.der_seq(other, b'\x05\0'), ref.der_bits(ref.der_int(5)))),
         ('wrong-version', util.ParsePkcs8, ref.der_seq(ref.der_int(1), alg, ref.der_octets(ref.der_int(x)))),
         ('wrong-version', util.ParsePkcs8, ref.der_seq(ref.der_int(0), ref.der_seq(RSA_OID, b'\x05\0'), ref.der_octets(
             ref.der_seq(ref.der_int(1), *[ref.der_int(7)] * 8)))),
         ('wrong-fields', util.ParsePkcs8, ref.der_seq(ref.der_int(0), alg)),
         ('wrong-fields', util.ParsePkcs8, ref.der_seq(ref.der_int(0), alg, ref.der_octets(ref.der_int(x)), ref.der_int(1))),
         ('wrong-fields', util.ParseX509, ref.der_seq(alg, ref.der_bits(ref.der_int(y)), ref.der_int(1)))]
  for why, fn, blob in bad:
    o = mon.call(fn, ref.b64(blob))
    mon.check(not o.ok and isinstance(o.exc, errors.KeyczarError), lambda: '%s does not refuse %s: %r' % (fn.__name__, why, o))
    mon.event(why)


def _openssl(mon, case):
  """Key files that other software wrote."""
  d = os.path.join(env.REPO, 'cpp', 'src', 'keyczar', 'data')
  for n in ('rsa_pem/rsa_priv.pem', 'dsa_pem/dsa_priv.pem'):
    pem = os.path.join(d, n)
    kind = n[:3]
    der = subprocess.run(['openssl', 'pkcs8', '-topk8', '-nocrypt', '-in', pem, '-outform', 'DER'], check=True, stdout=subprocess.PIPE,
                         stderr=subprocess.DEVNULL).stdout
    pub = subprocess.run(['openssl', 'pkey', '-in', pem, '-pubout', '-outform', 'DER'], check=True, stdout=subprocess.PIPE,
                         stderr=subprocess.DEVNULL).stdout
    p = mon.must('ParsePkcs8 of openssl output', util.ParsePkcs8, ref.b64(der))
    x = mon.must('ParseX509 of openssl output', util.ParseX509, ref.b64(pub))
    if kind == 'rsa':
      mon.check(p['p'] * p['q'] == p['n'] and p['e'] * p['d'] % (p['p'] - 1) == 1 and p['invq'] * p['q'] % p['p'] == 1
                and p['dp'] == p['d'] % (p['p'] - 1) and p['dq'] == p['d'] % (p['q'] - 1), 'ParsePkcs8 of %s is inconsistent' % n)
      same(mon, 'ParseX509', x, {'n': p['n'], 'e': p['e']}, n)
      same(mon, 'ExportRsaPkcs8 of ' + n, ref.unb64(util.ExportRsaPkcs8(p)), der, n)
      same(mon, 'ExportRsaX509 of ' + n, ref.unb64(util.ExportRsaX509(p)), pub, n)
    else:
      p = dict(p, y=pow(p['g'], p['x'], p['p']))
      mon.check(pow(p['g'], p['q'], p['p']) == 1 and 0 < p['x'] < p['q'], 'ParsePkcs8 of %s is inconsistent' % n)
      same(mon, 'ParseX509', x, {f: p[f] for f in 'pqgy'}, n)
      same(mon, 'ExportDsaPkcs8 of ' + n, ref.unb64(util.ExportDsaPkcs8(p)), der, n)
      same(mon, 'ExportDsaX509 of ' + n, ref.unb64(util.ExportDsaX509(p)), pub, n)
    mon.event('openssl:' + kind)


def run(mon, case):
  {'exhaustive': _exhaustive, 'lengths': _lengths, 'random': _random, 'split': _split, 'pack': _pack, 'int': _int, 'asn1': _asn1,
   'openssl': _openssl, 'huge': _huge}[case['k']](mon, case)
