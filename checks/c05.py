"""C05: every genuine signature verifies."""
import random

from checks import c01
from kzmon import gen, kit, ref
from kzmon.env import B, S, kz

ID = 'C05'
LEVEL = 'exploration'
RULE = ('one evaluation = one signature made and verified (or verified by one more verifier); non-trivial: the verify '
        'operation was actually run on a genuine signature; distinct by (key kind, signing mode, verifier, message '
        'length, pattern, nonce length, encoder, version role)')
REQUIRED = ('sign:hmac', 'sign:dsa', 'sign:rsa', 'mode:plain', 'mode:attached', 'mode:unversioned', 'verifier:public',
            'verifier:later', 'verifier:verifier', 'rare:rsa-leading-zero', 'rare:dsa-short-r', 'rare:dsa-short-s',
            'rare:dsa-high-bit', 'no-primary')

KINDS = ('hmac', 'dsa', 'rsa512', 'rsa768', 'rsa1024', 'rsa2048', 'rsa4096')


def cases(rng, tier):
  mult = 1 if tier == 'quick' else 10
  for kind in ('hmac', 'dsa', 'rsa1024'):
    for n in range(0, 130 if kind == 'hmac' else 40):
      yield {'k': 'plain', 'keys': ['%s:%d' % (kind, n % 6)], 'status': 'P', 'enc': 0,
             'msg': [gen.PATTERNS[n % len(gen.PATTERNS)], n, n], 'nonce': ['rand', n % 19, n], 'encoder': ('default', 'none')[n % 2]}
  for i in range(260 * mult):
    kind = rng.choice(('hmac', 'hmac', 'dsa', 'dsa', 'rsa1024', 'rsa512', 'rsa768', 'rsa2048'))
    keys = gen.sign_keys(rng, kind, rng.choice((1, 2, 3, 5, 13)))
    yield {'k': 'plain', 'keys': keys, 'status': gen.statuses(rng, len(keys)), 'enc': rng.randrange(len(keys)),
           'msg': gen.msg(rng, big=i % 10 == 0), 'nonce': gen.msg(rng, maxlen=40),
           'encoder': rng.choice(sorted(c01.ENC))}
  for i, n in enumerate(gen.HUGE):
    yield {'k': 'plain', 'keys': ['%s:%d' % (('hmac', 'dsa', 'rsa1024')[i % 3], i)], 'status': 'P', 'enc': 0, 'msg': ['rand', n, i],
           'nonce': ['rand', i, i], 'encoder': 'default'}
  for i, n in enumerate((31, 32, 63, 64, 65, 100, 127, 128, 255, 256, 257, 1000, 4096, 65535, 65536, 65537, (1 << 20) + 1)):
    for kind in ('hmac', 'dsa', 'rsa1024'):
      yield {'k': 'plain', 'keys': ['%s:%d' % (kind, i)], 'status': 'P', 'enc': 0, 'msg': ['rand', 3 * i, i],
             'nonce': [gen.PATTERNS[i % len(gen.PATTERNS)], n, i], 'encoder': 'default'}
  for kind in ('hmac', 'dsa', 'rsa512'):
    for n in (17, 34, 66) if kind == 'hmac' else (34,):
      keys = gen.sign_keys(rng, kind, n)
      for enc in (0, len(keys) - 1, rng.randrange(len(keys))):
        yield {'k': 'plain', 'keys': keys, 'status': gen.statuses(rng, len(keys)), 'enc': enc, 'msg': gen.msg(rng),
               'nonce': gen.msg(rng, maxlen=40), 'encoder': 'default'}
  for i in range(3 * mult):
    yield {'k': 'plain', 'keys': ['rsa4096:0'], 'status': 'P', 'enc': 0, 'msg': gen.msg(rng),
           'nonce': gen.msg(rng, maxlen=40), 'encoder': 'default'}
  for i in range(16 * mult):
    yield {'k': 'plain', 'keys': ['rsaedge:%d' % (i % 4)], 'status': 'P', 'enc': 0, 'msg': gen.msg(rng),
           'nonce': gen.msg(rng, maxlen=40), 'encoder': 'default'}
  for i in range(16 * mult):
    yield {'k': 'rsazero', 'key': 'rsa%d:%d' % ((512, 768, 1024)[i % 3], i), 'salt': i, 'zeros': 1,
           'mode': i % 2}
  for z in gen.rsa_zero():
    yield {'k': 'rsazero', 'key': z['key'], 'salt': z['zeros'], 'mode': not z['versioned'], 'msg': z['msg'], 'zeros': z['zeros']}
  for i in range(60 * mult):
    yield {'k': 'dsamany', 'key': 'dsa:%d' % i, 'salt': i, 'count': 25}
  for i in range(12 * mult):
    yield {'k': 'dsacrafted', 'key': 'dsa:%d' % i, 'salt': i}


def accepted(mon, o, what, **kw):
  mon.check(o.ok and bool(o.value), lambda: 'a genuine signature is not accepted (%s): %r' % (what, o),
            traceback=o.tb, **kw)


def run(mon, case):
  if case['k'] == 'plain':
    return _Plain(mon, case)
  key = gen.key(case['key'])
  ks = gen.keyset({'keys': [case['key']], 'purpose': 'sign'})
  signer = kit.opened(mon, kz.Signer, ks)
  unsigner = kit.opened(mon, kz.UnversionedSigner, ks)
  pub = kit.opened(mon, kz.Verifier, ks.public())
  unpub = kit.opened(mon, kz.UnversionedVerifier, ks.public())
  if case['k'] == 'rsazero':
    for i in range(0 if 'msg' in case else 1 << 20):
      m = b'%d/%d' % (case['salt'], i)
      sig = key.sign(m + (b'' if case['mode'] else b'\0'))
      if sig[0] == 0:
        break
    if 'msg' in case:
      m = case['msg'].encode()
    if case['mode']:
      s = mon.must('Sign', unsigner.Sign, S(m), None)
      accepted(mon, mon.call(unpub.Verify, S(m), s, None), 'RSA, leading zero, unversioned')
      accepted(mon, mon.call(unsigner.Verify, S(m), s, None), 'RSA, leading zero, unversioned')
    else:
      s = mon.must('Sign', signer.Sign, S(m))
      accepted(mon, mon.call(pub.Verify, S(m), s), 'RSA, leading zero')
    mon.event('rare:rsa-leading-zero')
    mon.distinct('rsazero', case['key'], case['mode'], case['salt'])
  elif case['k'] == 'dsamany':
    rng = random.Random(case['salt'])
    for i in range(case['count']):
      m = gen.message(gen.msg(rng, maxlen=60))
      s = mon.must('Sign', signer.Sign, S(m))
      r_, s_ = ref.parse_dsa_sig(ref.unb64(s)[5:])
      mon.check(key.verify_rs(m + b'\0', r_, s_), 'a DSA signature is not valid for the reference', sig=s)
      accepted(mon, mon.call(pub.Verify, S(m), s), 'DSA', sig=s)
      _DsaEvents(mon, r_, s_)
      mon.event('sign:dsa')
  else:
    # genuine signatures made elsewhere, with r or s in all length classes
    want = set(['r19', 's19', 'r20h', 's20h', 'r20l'])
    i = 0
    while want and i < 3000:
      i += 1
      m = b'crafted%d' % (i % 7)
      k = 2 + ref.b2i(gen.stream('k%s/%d' % (case['salt'], i), 24)) % (key.q - 3)
      r, s = key.sign_rs(m + b'\0', k)
      cl = set(('%s%d%s' % (n, (v.bit_length() + 7) // 8, '' if v.bit_length() <= 152 else
                            ('h' if v.bit_length() == 160 else 'l'))) for n, v in (('r', r), ('s', s)))
      if cl & want:
        want -= cl
        sig = b'\0' + key.id + ref.der_seq(ref.der_int(r), ref.der_int(s))
        accepted(mon, mon.call(pub.Verify, S(m), ref.b64(sig)), 'DSA, r %d bits, s %d bits' %
                 (r.bit_length(), s.bit_length()))
        accepted(mon, mon.call(signer.Verify, S(m), S(sig), None), 'DSA crafted')
        _DsaEvents(mon, r, s)
        mon.distinct('dsacrafted', r.bit_length(), s.bit_length())


def _DsaEvents(mon, r, s):
  if r.bit_length() <= 152:
    mon.event('rare:dsa-short-r')
  if s.bit_length() <= 152:
    mon.event('rare:dsa-short-s')
  if r.bit_length() == 160 or s.bit_length() == 160:
    mon.event('rare:dsa-high-bit')
  mon.distinct('dsa', (r.bit_length() + 7) // 8, (s.bit_length() + 7) // 8, r.bit_length() % 8 == 0)


def _Plain(mon, case):
  case = dict(case, purpose='sign')
  ks = gen.keyset(case)
  old = gen.keyset(case)
  for v in old.versions:
    if v.status == 'PRIMARY':
      v.status = 'ACTIVE'
  ver = old.versions[case['enc']]
  # without a primary nothing can be signed
  if case['msg'][2] % 5 == 0:
    for cls, call in ((kz.Signer, lambda s: s.Sign('x')), (kz.UnversionedSigner, lambda s: s.Sign('x')),
                      (kz.Signer, lambda s: s.AttachedSign('x', 'n'))):
      o = mon.call(call, kit.opened(mon, cls, old))
      mon.check(kit.refused(o), lambda: 'signing without a primary key: %r' % o)
      mon.event('no-primary')
  ver.status = 'PRIMARY'
  key = ver.key
  data, nonce = gen.message(case['msg']), gen.message(case['nonce'])
  enc = c01.ENC[case['encoder']]
  eargs = () if enc is None else (enc[0],)
  dargs = () if enc is None else (enc[1],)
  raw = (lambda s: ref.unb64(s)) if enc is None else (lambda s: B(enc[1](s)) if enc[1] else B(s))
  signer = kit.opened(mon, kz.Signer, old)
  unsigner = kit.opened(mon, kz.UnversionedSigner, old)
  verifiers = [('same', signer), ('later', kit.opened(mon, kz.Signer, ks)),
               ('verifier', kit.opened(mon, kz.Verifier, ks))]
  unverifiers = [('same', unsigner), ('later', kit.opened(mon, kz.UnversionedSigner, ks)),
                 ('verifier', kit.opened(mon, kz.UnversionedVerifier, ks))]
  if key.kind != 'hmac':
    verifiers.append(('public', kit.opened(mon, kz.Verifier, ks.public())))
    unverifiers.append(('public', kit.opened(mon, kz.UnversionedVerifier, ks.public())))
  kind = case['keys'][0].split(':')[0]
  what = '%s, %d bytes (%s), encoder %s' % (kind, len(data), case['msg'][0], case['encoder'])

  sig = mon.must('Sign (%s)' % what, signer.Sign, S(data), *eargs)
  att = mon.must('AttachedSign (%s)' % what, signer.AttachedSign, S(data), S(nonce), *eargs)
  un = mon.must('unversioned Sign (%s)' % what, unsigner.Sign, S(data), *eargs)
  mon.event('sign:' + key.kind, 3)
  # the reference accepts them
  r = raw(sig)
  mon.check(r[:5] == b'\0' + key.id and key.verify(data + b'\0', r[5:]),
            'the reference rejects the signature (%s)' % what, sig=r)
  head, d, s = ref.attached_parts(raw(att))
  mon.check(head == b'\0' + key.id and d == data and key.verify(ref.attached_message(data, nonce), s),
            'the reference rejects the attached signature (%s)' % what, blob=raw(att))
  mon.check(key.verify(data, raw(un)), 'the reference rejects the unversioned signature (%s)' % what, sig=raw(un))
  for name, v in verifiers:
    accepted(mon, mon.call(v.Verify, S(data), sig, *dargs), '%s, %s' % (what, name))
    o = mon.call(v.AttachedVerify, att, S(nonce), *dargs)
    mon.check(o.ok and o.value is not None and B(o.value) == data,
              lambda: 'AttachedVerify of a genuine signature (%s, nonce of %d bytes, %s): %r'
              % (what, len(nonce), name, o), traceback=o.tb)
    mon.event('verifier:' + name)
    mon.event('mode:plain')
    mon.event('mode:attached')
    mon.distinct(kind, 'plain', name, len(data), case['msg'][0], case['encoder'], ks.versions[case['enc']].status)
    mon.distinct(kind, 'attached', name, len(data), len(nonce), case['encoder'], ks.versions[case['enc']].status)
  for name, v in unverifiers:
    accepted(mon, mon.call(v.Verify, S(data), un, *dargs), 'unversioned, %s, %s' % (what, name))
    mon.event('mode:unversioned')
    mon.distinct(kind, 'unversioned', name, len(data), case['encoder'], ks.versions[case['enc']].status)
