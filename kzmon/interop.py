"""Runs /repo/interop/interop.py with scripted stand-ins for the implementations.

The runner is a separate process in a scratch directory, under an unprivileged
user: it empties directories.
"""
import hashlib
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile

from . import env

_VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRIPT = os.path.join(env.REPO, 'interop', 'interop.py')
USER = 65534     # nobody
TESTDATA = 'This is some test data.'


def build():
  src = os.path.join(_VERIF, 'native', 'standin.c')
  with open(src, 'rb') as f:
    h = hashlib.sha1(f.read()).hexdigest()[:12]
  d = os.path.join(_VERIF, 'build')
  os.makedirs(d, exist_ok=True)
  exe = os.path.join(d, 'standin-%s' % h)
  if not os.path.exists(exe):
    fd, tmp = tempfile.mkstemp(dir=d)
    os.close(fd)
    subprocess.run(['gcc', '-O2', '-w', '-o', tmp, src], check=True)
    os.chmod(tmp, 0o755)
    os.replace(tmp, exe)
  return exe


_user = []


def user_args():
  """Arguments that make subprocess start the runner as an unprivileged user, if that user can read it."""
  if not _user:
    kw = {'user': USER, 'group': USER, 'extra_groups': []} if os.geteuid() == 0 else {}
    try:
      ok = subprocess.run([sys.executable, '-c', 'import json, unittest, subprocess; open(%r).read()' % SCRIPT], cwd='/',
                          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60, **kw).returncode == 0
    except (OSError, subprocess.SubprocessError):
      ok = False
    _user.append(kw if ok else {})
  return _user[0]


class Call(object):

  def __init__(self, number, impl, args, tree, action, out):
    self.number, self.impl, self.args, self.tree, self.action, self.out = number, impl, args, tree, action, out
    self.json = json.loads(args[-1])
    self.command = self.json.get('command')


class World(object):
  """A scratch directory with a configuration, in which the runner is started."""

  def __init__(self, mon, config):
    self.dir = mon.tmpdir()
    self.environ = {}
    self.config = config
    self.log = os.path.join(self.dir, 'log')
    self.plan = os.path.join(self.dir, 'plan')
    self.exe = os.path.join(self.dir, 'standin')
    shutil.copy(build(), self.exe)
    os.chmod(self.exe, 0o755)
    self.work = os.path.join(self.dir, 'work')
    os.makedirs(os.path.join(self.work, 'config'))
    c = dict(config)
    impl = {}
    for name, extra in config['implementations'].items():
      impl[name] = extra if isinstance(extra, list) and extra and extra[0].startswith('/') else [
          self.exe, self.log, self.plan, name] + list(extra)
    c['implementations'] = impl
    for f, part in (('interopAlgorithms', 'algorithms'), ('ignoredTests', 'ignored'), ('keySetOptions', 'key_set_options'),
                    ('operations', 'operations'), ('implementations', 'implementations')):
      with open(os.path.join(self.work, 'config', f + '.json'), 'w') as out:
        json.dump(c[part], out, indent=1)
    open(self.log, 'w').close()
    self.set_plan({})

  def set_plan(self, plan):
    with open(self.plan, 'w') as f:
      for n, action in plan.items():
        f.write('%d %s\n' % (n, action))
    for p in (self.log, self.log + '.n'):
      if os.path.exists(p):
        os.truncate(p, 0)

  def open_to_user(self):
    d = self.dir
    os.chmod(os.path.dirname(self.dir), 0o755)
    for root, dirs, files in os.walk(d):
      os.chown(root, USER, USER)
      for n in files:
        os.lchown(os.path.join(root, n), USER, USER)

  def run(self, *argv, timeout=120):
    """Returns (exit status, stdout, stderr)."""
    self.open_to_user()
    e = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'PYTHONDONTWRITEBYTECODE': '1', 'HOME': self.work, 'LC_ALL': 'C.UTF-8',
         'PYTHONHASHSEED': '0'}
    e.update(self.environ)
    kw = user_args()
    p = subprocess.run([sys.executable, SCRIPT] + list(argv), cwd=self.work, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=timeout, **kw)
    return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')

  def calls(self):
    with open(self.log, 'rb') as f:
      b = f.read()
    pos, out = 0, []

    def field():
      nonlocal pos
      i = b.index(b':', pos)
      n = int(b[pos:i])
      v = b[i + 1:i + 1 + n]
      assert b[i + 1 + n:i + 2 + n] == b','
      pos = i + 2 + n
      return v.decode('utf-8')
    while pos < len(b):
      number, impl, argc = int(field()), field(), int(field())
      out.append(Call(number, impl, [field() for _ in range(argc)], field(), field(), field()))
    return out


# ---------------------------------------------------------------- the model

def keysets(config, purpose):
  for alg, a in config['algorithms'].items():
    if a['purpose'] == purpose:
      for size in a['keySizes']:
        if purpose == 'crypt' and a['asymmetric']:
          yield (alg, size, 'encrypt')
        yield (alg, size, purpose)


def test_purposes(config, alg, purpose):
  if purpose in ('crypt', 'encrypt'):
    return ['crypt']
  return ['sign', 'verify'] if config['algorithms'][alg]['asymmetric'] else ['sign']


def options(config, op, purpose, which):
  o = dict(config['key_set_options'][purpose][which])
  o.update(config['operations'][op][which])
  signing = [a + str(s) for a, s, _ in keysets(config, 'sign')]
  names = list(o)
  lists = [signing if o[n] == 'ALL_SIGNING_KEYS' else o[n] for n in names]
  return [dict(zip(names, c)) for c in itertools.product(*lists)]


def ignored(config, impl, op, alg, opts):
  def has(l, v):
    return v in l or '*' in l
  for r in config['ignored']:
    if has(r['implementation'], impl) and has(r['operation'], op) and has(r['algorithm'], alg) and all(
        n == '*' or (n in opts and opts[n] in vals) for n, vals in r['options'].items()):
      return True
  return False


def matrix(config):
  """[(generating implementation, operation, algorithm, generate options, [(testing implementation, test options)])]"""
  out = []
  for gi in config['implementations']:
    for op, o in config['operations'].items():
      for alg, size, purpose in keysets(config, o['keytype']):
        name = alg + str(size)
        for g in options(config, op, purpose, 'generateOptions'):
          if ignored(config, gi, op, name, g):
            continue
          tests = []
          for ti in config['implementations']:
            for tp in test_purposes(config, alg, purpose):
              for t in options(config, op, tp, 'testOptions'):
                if not ignored(config, ti, op, name, dict(t, **g)):
                  tests.append((ti, t))
          out.append((gi, op, name, g, tests))
  return out


def shipped():
  d = os.path.join(env.REPO, 'interop', 'config')
  c = {}
  for f, part in (('interopAlgorithms', 'algorithms'), ('ignoredTests', 'ignored'), ('keySetOptions', 'key_set_options'),
                  ('operations', 'operations'), ('implementations', 'implementations')):
    with open(os.path.join(d, f + '.json')) as fd:
      c[part] = json.load(fd)
  c['implementations'] = dict((n, []) for n in c['implementations'])
  return c


def random_config(rng, scale=1, keys=False):
  """keys: options and rules as a run that creates its keys needs them."""
  impls = rng.sample(['java', 'java2', 'av', 'cpp', 'python', 'go', 'c++', 'py-3'], rng.choice((1, 2, 2, 3) if scale == 1 else (1, 2)))
  c = {'implementations': dict((i, rng.choice(([], [], ['-x'], ['--flag=a b', '']))) for i in impls), 'algorithms': {}, 'operations': {},
       'key_set_options': {}, 'ignored': []}
  algs = rng.sample(['aes', 'hmac', 'dsa', 'rsa-crypt', 'rsa-sign', 'ec', 'des', 'x'], rng.choice((1, 2, 3, 3, 4)))
  for a in algs:
    purpose = {'aes': 'crypt', 'hmac': 'sign', 'dsa': 'sign', 'rsa-crypt': 'crypt', 'rsa-sign': 'sign'}.get(a) or rng.choice(('crypt', 'sign'))
    asym = {'aes': False, 'hmac': False, 'dsa': True, 'rsa-crypt': True, 'rsa-sign': True}.get(a)
    c['algorithms'][a] = {'purpose': purpose, 'asymmetric': rng.random() < .5 if asym is None else asym,
                          'keySizes': sorted(rng.sample((64, 128, 192, 256, 1024, 2048), rng.choice((0, 1, 1, 2, 3) if not keys else (1, 1, 2)))),
                          'createFlags': ['--purpose=' + purpose] + (['--asymmetric=' + a[:3]] if asym else []) + (
                              ['--x'] if rng.random() < .3 else []),
                          'addKeyFlags': rng.choice(([], [], ['--padding=x'], ['--a=b', '-q']))}
  if keys and 'aes' not in algs:
    c['algorithms']['aes'] = {'purpose': 'crypt', 'asymmetric': False, 'keySizes': [128], 'createFlags': ['--purpose=crypt'],
                              'addKeyFlags': []}
  if keys:
    c['algorithms']['aes']['keySizes'] = sorted(set([128] + c['algorithms']['aes']['keySizes']))
  vals = ['', 'encoded', 'unencoded', '1', '2', '12', 'a_b', 'b', 'a', 'signer', 'public']

  def opts(names, n):
    out = {}
    for name in rng.sample(names, n):
      out[name] = rng.sample(vals, rng.choice((1, 1, 2, 2, 3))) if rng.random() < .97 else []
    return out
  # no name stands for two things: which one would win is not documented
  gnames, tnames = ['class', 'encoding', 'mode', 'o1'], ['kind', 'check', 'o2', 'verbose']
  gops, tops = ['o', 'format'], ['opt', 'level']
  for p in ('sign', 'crypt', 'verify', 'encrypt'):
    c['key_set_options'][p] = {'generateOptions': opts(gnames, rng.choice((0, 0, 1, 1, 2))),
                               'testOptions': opts(tnames, rng.choice((0, 0, 1, 1, 2)))}
    if keys:
      c['key_set_options'][p]['generateOptions']['cryptedKeySet'] = rng.choice((['', 'aes128'], [''], ['aes128']))
  if keys:
    for p, w, v in (('sign', 'testOptions', ''), ('verify', 'testOptions', 'public'), ('crypt', 'generateOptions', ''),
                    ('encrypt', 'generateOptions', 'public')):
      c['key_set_options'][p][w]['pubKey'] = [v]
    c['ignored'].append({'implementation': ['*'], 'operation': ['*'], 'algorithm': ['*'],
                         'options': {'cryptedKeySet': ['aes128'], 'pubKey': ['public']}, 'reason': 'no such key sets'})
  ops = rng.sample(['sign', 'encrypt', 'attached', 'unversioned', 'signedSession', 'si'], rng.choice((1, 2, 2, 3)))
  for o in ops:
    c['operations'][o] = {'keytype': 'crypt' if o in ('encrypt', 'signedSession') else 'sign',
                          'generateOptions': opts(gops, rng.choice((0, 0, 1))), 'testOptions': opts(tops, rng.choice((0, 0, 1)))}
    if o == 'signedSession' or rng.random() < .1:
      c['operations'][o]['generateOptions']['signer'] = 'ALL_SIGNING_KEYS'
  names = [a + str(s) for a in c['algorithms'] for s in c['algorithms'][a]['keySizes']]

  def pick(l):
    return ['*'] if rng.random() < .6 or not l else rng.sample(l, rng.choice((1, 1, min(3, len(l))))) + (['*'] if rng.random() < .04 else [])
  for i in range(rng.choice((0, 1, 2, 2, 3, 4))):
    o = rng.choice(({'*': '*'}, {}, None, None, None, None))
    if o is None:
      o = {}
      used = [(n, v) for part in list(c['key_set_options'].values()) + list(c['operations'].values())
              for w in ('generateOptions', 'testOptions') for n, v in part[w].items() if v]
      for _ in range(rng.choice((1, 1, 2))):
        if used and rng.random() < .8:
          n, v = rng.choice(used)
          o[n] = [rng.choice(names or ['x']) if v == 'ALL_SIGNING_KEYS' else rng.choice(v)]
          if rng.random() < .3:
            o[n].append(rng.choice(vals))
        else:
          o[rng.choice(gnames + tnames + gops + tops)] = rng.sample(vals, rng.choice((1, 2, 3)))
      if rng.random() < .1:
        o['*'] = '*'
    r = {'implementation': pick(impls + ['jav', 'other']), 'operation': pick(ops + ['sig', 'other']),
         'algorithm': pick(names * 2 + ['aes', '128', 'aes12']), 'options': o, 'reason': rng.choice(('because', 'why %s not', 'because'))}
    c['ignored'].append(r)
  return c


def size_of(config):
  m = matrix(config)
  return len(m), sum(len(t) for *_, t in m)
