"""C38: the interop programs of C++ and Java agree with each other and with Python."""
import contextlib
import io
import json
import os
import random
import string
import subprocess

from kzmon import foreign, gen, mon as mon_, realimpl, ref
from checks import c31

ID = 'C38'
LEVEL = 'exploration'
RULE = ('one command given to one implementation on a key set made by one implementation, judged by the others and by the reference formats: distinct by '
        'operation, algorithm, options, the implementations that made the keys, generated and tested, and the alteration')
REQUIRED = tuple('%s:%s' % (a, b) for a in ('create', 'generate', 'test') for b in ('cpp', 'java', 'python')) + tuple(
    'op:' + o for o in ('encrypt', 'sign', 'attached', 'unversioned', 'signedSession')) + tuple(
        'refused:' + o for o in ('data', 'flip', 'cut', 'keys', 'empty', 'missing', 'unknown')) + ('encoded', 'unencoded', 'crypted', 'public', 'made-by-ref')
ASSUMPTIONS = ('Python is represented by kzmon/realimpl.py on the library of the repository (its own program is among the tests)',
               'java/org/json behaves as the library of json.org, which is not in the sandbox',
               'the combinations of interop/config/ignoredTests.json are left out, also AES keys above 128 bits',
               'Java\'s test of an attached signature does not look at the data, and its create does not tell of failures')
CASE_TIMEOUT = {'quick': 250, 'thorough': 600}
IMPLS = ('cpp', 'java', 'python')
CREATE = {'aes': ['--purpose=crypt'], 'hmac': ['--purpose=sign'], 'dsa': ['--purpose=sign', '--asymmetric=dsa'],
          'rsa-sign': ['--purpose=sign', '--asymmetric=rsa'], 'rsa-crypt': ['--purpose=crypt', '--asymmetric=rsa']}
SIGN = ('hmac256', 'dsa1024', 'rsa-sign1024', 'rsa-sign2048')
CRYPT = ('aes128', 'rsa-crypt1024', 'rsa-crypt2048')
OPS = ('encrypt', 'sign', 'attached', 'unversioned', 'signedSession')
_exe = []


def setup():
  foreign.setup_java()
  foreign.setup_cpp()
  _exe[:] = [foreign.cpp_interop()]


def cases(rng, tier):
  q = tier == 'quick'
  n = 0
  for r in range(2 if q else 12):
    for op in OPS:
      for alg in (SIGN if op in ('sign', 'attached', 'unversioned') else CRYPT):
        if op == 'signedSession' and alg == 'rsa-crypt1024':
          continue
        for crypted in ('', 'aes128'):
          maker = (('cpp', 'java', 'python')[n % 3] if r % 2 == 0 else 'ref')
          n += 1
          yield {'k': 'cross', 'op': op, 'alg': alg, 'crypted': crypted, 'maker': maker, 'salt': rng.randrange(1 << 30),
                 'signer': rng.choice(SIGN[:3]), 'n': 1 if q else 3}
    n += 1
  yield {'k': 'cppcreate'}
  for i in range(6 if q else 30):
    yield {'k': 'wrong', 'impl': IMPLS[i % 2], 'salt': rng.randrange(1 << 30)}


def call(mon, impl, cmd):
  """(status, output) of a command."""
  mon.event('%s:%s' % (cmd.get('command'), impl))
  if impl == 'python':
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
      try:
        rc = realimpl.main(cmd)
      except Exception as e:  # pylint: disable=broad-except
        return 1, '%s%s: %s' % (out.getvalue(), type(e).__name__, e)
    return rc or 0, out.getvalue()
  env = dict((k, v) for k, v in os.environ.items() if not k.startswith(('LD_', 'JAVA', 'JDK', '_JAVA')))
  if impl == 'cpp':
    env.update(foreign.OPTIONS, ASAN_OPTIONS=foreign.OPTIONS['ASAN_OPTIONS'].replace('detect_leaks=1', 'detect_leaks=0'))
    argv = [_exe[0]]
  else:
    argv = ['java', '-ea', '-Xmx600m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-Xshare:auto', '-cp', foreign._jdir[0], 'org.keyczar.interop.Interop']
  r = subprocess.run(argv + [json.dumps(cmd)], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd='/', timeout=200)
  out, err = r.stdout.decode('utf-8', 'replace'), r.stderr.decode('utf-8', 'replace')
  if impl == 'cpp' and ('Sanitizer:' in err or 'runtime error:' in err):
    if not (cmd.get('_wild') and ('SEGV' in err or 'null pointer' in err)):
      mon.violate('C++: the interop program: %s' % foreign.Died(r.returncode, err, '', ()).what(), report=err[-5000:], command=cmd)
  return r.returncode, out if r.returncode == 0 else out + err


def kind_of(alg):
  return alg.rstrip('0123456789'), int(alg[len(alg.rstrip('0123456789')):])


def commands(where, alg, crypted):
  """As the runner asks for them."""
  kind, size = kind_of(alg)
  loc = os.path.join(where, alg + crypted)
  add = ['addkey', '--status=primary', '--size=%d' % size, '--location=' + loc] + (['--crypter=' + os.path.join(where, crypted)] if crypted else [])
  out = [['create', '--name=' + alg, '--location=' + loc] + CREATE[kind], add, add]
  if kind in ('dsa', 'rsa-sign', 'rsa-crypt') and not crypted:
    out.append(['pubkey', '--destination=' + loc + 'public', '--location=' + loc])
  return loc, out


def make(mon, rng, maker, where, algs, avoid=None):
  """Key sets: {name: KeySet}; without the keys to be avoided."""
  sets = {}
  for alg, crypted in algs:
    if alg + crypted in sets:
      continue
    kind, size = kind_of(alg)
    loc, cmds = commands(where, alg, crypted)
    os.makedirs(loc)
    pub = cmds[-1][0] == 'pubkey'
    if pub:
      os.makedirs(loc + 'public')
    decrypt = None
    if crypted:
      outer = sets[crypted]
      decrypt = lambda t: outer.decrypt(t)
    if maker == 'ref':
      mon.event('made-by-ref')
      spec = c31.spec(rng, 'rsa%d' % size if kind.startswith('rsa') else kind, 'crypt' if kind in ('aes', 'rsa-crypt') else 'sign')
      if kind == 'aes':
        spec['keys'] = ['aes128:' + k.split(':')[1] for k in spec['keys']]
      if avoid:
        spec = {'keys': [k for k in spec['keys'] + ['%s:%d' % (spec['keys'][0].split(':')[0], i) for i in range(2)] if gen.key(k).id != avoid[alg + crypted]][:1], 'purpose': spec['purpose']}
      ks = gen.keyset(spec)
      if ks.primary is None:
        ks.versions[0].status = 'PRIMARY'
      enc = None
      if crypted:
        ks.encrypted = True
        enc = lambda t: outer.encrypt(rng, t)
      ks.write(loc, enc)
      if pub:
        ks.public().write(loc + 'public')
    else:
      if maker == 'cpp':    # see cppcreate
        mon.event('create:cpp')
        rc, out = (0 if all(foreign.Cpp(mon).tool(*c) for c in cmds) else 1), ''
      else:
        rc, out = call(mon, maker, {'command': 'create', 'keyczartCommands': cmds})
      mon.check(rc == 0, '%s: creating a key set fails' % maker, status=rc, out=out[-1500:], commands=cmds)
      try:
        ks = ref.read_keyset(loc, decrypt)
      except (ref.FormatError, ValueError, KeyError, OSError, TypeError) as e:
        mon.violate('%s: a created key set does not follow the format: %r' % (maker, e), commands=cmds)
      mon.check([v.status for v in ks.versions if v.number == 1] + [v.status for v in ks.versions if v.number == 2] == ['ACTIVE', 'PRIMARY'] and len(ks.versions) == 2,
                '%s: a created key set has other versions' % maker, versions=[(v.number, v.status) for v in ks.versions])
      mon.check(ks.encrypted == bool(crypted), '%s: a created key set is stored in another form' % maker)
      if pub:
        for n in ('meta', '1', '2'):
          mon.check(os.path.isfile(os.path.join(loc + 'public', n)), '%s: the public set is incomplete' % maker, missing=n)
    if alg == 'aes128' and not crypted:
      ks = Outer(ks)
    sets[alg + crypted] = ks
    if pub:
      mon.event('public')
  return sets


class Outer(object):
  """A set that encrypts others."""

  def __init__(self, ks):
    self.ks = ks

  def __getattr__(self, n):
    return getattr(self.ks, n)

  def decrypt(self, text):
    raw = ref.unb64(text)
    for v in self.ks.versions:
      if raw[:5] == b'\0' + v.key.id:
        return v.key.decrypt(raw)[0].decode()
    raise ref.FormatError('no such key')

  def encrypt(self, rng, text):
    return ref.b64(self.ks.primary.key.encrypt(text.encode(), rng.randbytes(16)))


def judge(mon, impl, op, ks, sign, raw, material, data):
  """What was generated against the formats."""
  say = foreign.Renamed(mon, {'cpp': 'C++', 'java': 'Java', 'python': 'Python'}[impl])
  k = ks.primary.key
  try:
    if op == 'encrypt':
      mon.check(k.decrypt(raw)[0] == data, '%s: the ciphertext is of another message' % impl)
    elif op == 'sign':
      mon.check(raw[:5] == b'\0' + k.id, '%s: header of a signature' % impl)
      c31.holds(say, k, data + b'\0', raw[5:], 'a signature')
    elif op == 'unversioned':
      c31.holds(say, k, data, raw, 'an unversioned signature')
    elif op == 'attached':
      head, d, sig = ref.attached_parts(raw)
      mon.check(head == b'\0' + k.id and d == data, '%s: an attached signature is of other data' % impl)
      c31.holds(say, k, ref.attached_message(data, b''), sig, 'an attached signature')
    else:
      j = json.loads(k.decrypt(ref.unb64(material))[0])
      key, nonce = ref.AesK.parse(j['key']), ref.unb64(j['nonce'])
      head, d, sig = ref.attached_parts(raw)
      mon.check(head == b'\0' + sign.primary.key.id, '%s: header of a session message' % impl)
      c31.holds(say, sign.primary.key, ref.attached_message(d, nonce), sig, 'the signature of a session message')
      mon.check(key.decrypt(d)[0] == data, '%s: the session message is another' % impl)
  except (ref.FormatError, ValueError, KeyError) as e:
    mon.violate('%s: what %s generates does not follow the format: %r' % (impl, op, e), raw=raw, material=material)


def cross(mon, case):
  rng = random.Random(case['salt'])
  op, alg, crypted = case['op'], case['alg'], case['crypted']
  where, other = mon.tmpdir(), mon.tmpdir()
  signer = case['signer'] if op == 'signedSession' else None
  algs = ([('aes128', '')] if crypted else []) + [(alg, crypted)] + ([(signer, crypted)] if signer else [])
  sets = make(mon, rng, case['maker'], where, algs)
  make(mon, rng, 'ref', other, algs, dict((n, sets[n].primary.key.id) for n in sets))
  ks, sk = sets[alg + crypted], sets.get((signer or '') + crypted)
  mon.event('op:' + op)
  if crypted:
    mon.event('crypted')
  sym = kind_of(alg)[0] in ('aes', 'hmac')
  for encoding in ((None,) if signer else ('encoded', 'unencoded')):
    g = {'cryptedKeySet': crypted}
    if encoding:
      g['encoding'] = encoding
      mon.event(encoding)
    if signer:
      g['signer'] = signer
    for y in IMPLS:
      if y == 'java' and op == 'attached' and encoding == 'encoded':
        continue
      data = ''.join(rng.choice(string.ascii_letters + string.digits + ' .,;:!?\'"\\/{}[]<>&%$#@+-_=~^|') for _ in range(rng.choice((0, 1, 5, 23, 60, 60))))
      gen_opts = dict(g)
      if op in ('encrypt', 'signedSession'):
        pub = not sym and not crypted and rng.random() < .5
        gen_opts['class'] = 'encrypter' if pub or rng.random() < .5 else 'crypter'
        gen_opts['pubKey'] = 'public' if pub else ''
      base = {'operation': op, 'keyPath': where, 'algorithm': alg, 'generateOptions': gen_opts, 'testData': data}
      rc, out = call(mon, y, dict(base, command='generate'))
      mon.check(rc == 0, '%s: generating fails' % y, status=rc, out=out[-1500:], case=base)
      try:
        o = json.loads(out)
        raw = ref.unb64(o['output'])
        material = o.get('sessionMaterial')
        inner = ref.unb64(raw.decode('ascii')) if encoding == 'encoded' else raw
      except (ValueError, KeyError, ref.FormatError) as e:
        mon.violate('%s: the output of generate cannot be read: %r' % (y, e), out=out)
      judge(mon, y, op, ks, sk, inner, material, data.encode())
      for z in IMPLS:
        if z == 'java' and op == 'attached' and encoding == 'encoded':
          continue
        t = {}
        if op in ('sign', 'attached', 'unversioned'):
          pub = not sym and not crypted and rng.random() < .5
          t = {'class': 'verifier' if pub or rng.random() < .5 else 'signer', 'pubKey': 'public' if pub else ''}
        test = dict(base, command='test', output=o, testOptions=t)
        rc, text = call(mon, z, test)
        mon.check(rc == 0, '%s refuses what %s generated with keys of %s (%s)' % (z, y, case['maker'], op), status=rc, out=text[-1500:], case=test)
        mon.distinct(op, alg, crypted, encoding, case['maker'], y, z, tuple(sorted(t.items())), gen_opts.get('class'))
        for _ in range(case['n']):
          for how in ('data', rng.choice(('flip', 'flip', 'cut', 'keys', 'empty', 'missing'))):
            refuse(mon, rng, z, op, test, o, inner, encoding, other, how)


def refuse(mon, rng, z, op, test, o, inner, encoding, other, how):
  """An altered test has to fail."""
  if how == 'data':
    if z == 'java' and op == 'attached':
      return
    t = test['testData']
    bad = dict(test, testData=rng.choice((t + rng.choice(' \n\t'), t[:-1] or t + 'z', rng.choice((t + 'x', t[:-1] + '\x7f', 'y' + t, t.swapcase() + '.')))))
  elif how == 'keys':
    bad = dict(test, keyPath=other)
  elif how == 'missing':
    bad = dict(test, keyPath=os.path.join(other, 'nothing'), _wild=1)
  else:
    if how == 'flip':
      # the last byte of the tag, or the header: nothing that another reading of RSA or DSA numbers could repair
      i = rng.choice((0, 1, 2, 3, 4)) if op != 'unversioned' and rng.random() < .5 else len(inner) // 2
      x = bytearray(inner)
      x[i] ^= 1 << rng.randrange(8)
      x = bytes(x)
    elif how == 'cut':
      x = inner[:rng.randrange(len(inner) * 3 // 4)]
    else:
      x = b''
    if encoding == 'encoded':
      x = ref.b64(x).encode()
    bad = dict(test, output=dict(o, output=ref.b64(x)))
  rc, text = call(mon, z, bad)
  mon.check(rc != 0, '%s: a test of %s passes that has to fail (%s)' % (z, op, how), out=text[-500:], case=bad)
  mon.event('refused:' + how)
  mon.distinct('refused', op, test['algorithm'], encoding, z, how)


def wrong(mon, case):
  """Commands that cannot be carried out."""
  rng = random.Random(case['salt'])
  where = mon.tmpdir()
  make(mon, rng, 'ref', where, [('hmac256', '')])
  g = {'cryptedKeySet': '', 'encoding': 'encoded'}
  base = {'operation': 'sign', 'keyPath': where, 'algorithm': 'hmac256', 'generateOptions': g, 'testData': 'x'}
  rc, out = call(mon, case['impl'], dict(base, command='generate'))
  mon.check(rc == 0, '%s: generating fails' % case['impl'], out=out[-1000:])
  t = {'class': 'signer', 'pubKey': ''}
  for bad in (dict(base, command='nothing'), dict(base, command='generate', algorithm='aes128', _wild=1), dict(base, command='generate', operation='encrypt', _wild=1),
              dict(base, command='generate', generateOptions=dict(g, encoding='x')), dict(base, command='generate', operation='nothing', _wild=1),
              dict(base, command='test', testOptions=t, output={}, _wild=1), dict(base, command='test', testOptions=dict(t, **{'class': 'x'}), output=json.loads(out)),
              dict(base, command='test', testOptions=t, output=json.loads(out), operation='unversioned'),
              dict(base, command='test', testOptions=t, output=json.loads(out), operation='attached')):
    rc, text = call(mon, case['impl'], bad)
    mon.check(rc != 0, '%s: a command that cannot be carried out succeeds' % case['impl'], command=bad, out=text[-500:])
    mon.event('refused:unknown')
    mon.distinct('wrong', case['impl'], bad['command'], bad['operation'])


def cppcreate(mon, case):
  """Creating key sets through the C++ program itself."""
  where = mon.tmpdir()
  for alg in ('aes128', 'hmac256', 'dsa1024'):
    loc, cmds = commands(where, alg, '')
    for d in (loc, loc + 'public'):
      os.makedirs(d)
    try:
      rc, _ = call(mon, 'cpp', {'command': 'create', 'keyczartCommands': cmds})
      good = rc == 0 and len(ref.read_keyset(loc).versions) == 2
    except (mon_.Violation, ref.FormatError, OSError, ValueError, KeyError):
      good = False
    mon.check(good, 'C++: the interop program does not create the key set it is asked for', commands=cmds)


def run(mon, case):
  if case['k'] == 'cppcreate':
    cppcreate(mon, case)
  elif case['k'] == 'wrong':
    wrong(mon, case)
  else:
    cross(mon, case)
