"""C24: the interop runner reports success only if every test passed."""
import json
import os
import random
import sys

from kzmon import interop, life
from checks.c23 import expected_calls, frozen

ID = 'C24'
LEVEL = 'exploration'
RULE = ('one run of the runner with real stand-in processes whose calls were logged, with or without injected failures: distinct by '
        'configuration, failing calls and way of failing')
REQUIRED = ('run:clean', 'run:created', 'fail:create', 'fail:generate', 'fail:test', 'action:exit', 'action:signal', 'action:garbage',
            'action:empty', 'several-failures', 'all-tests-ran', 'directories', 'untouched', 'missing-implementation', 'blocked', 'usage',
            'verbose', 'real', 'outputs', 'keysets-needed', 'noise')
ASSUMPTIONS = ('an implementation call fails if and only if its process does not exit with status 0, or prints no JSON when asked to generate',)
CASE_TIMEOUT = {'thorough': 1500}


def setup():
  interop.build()
  interop.user_args()


def cases(rng, tier):
  q = tier == 'quick'
  yield {'k': 'real', 'big': not q}
  for i in range(24 if q else 300):
    yield {'k': 'created', 'salt': rng.randrange(1 << 30), 'verbose': i % 3 == 0}
  for i in range(48 if q else 900):
    yield {'k': 'fail', 'salt': rng.randrange(1 << 30), 'create': i % 3 == 0, 'runs': 5}
  for i in range(16 if q else 120):
    yield {'k': 'dirs', 'salt': rng.randrange(1 << 30), 'create': i % 4 != 3}
  for i in range(6 if q else 40):
    yield {'k': 'missing', 'salt': rng.randrange(1 << 30)}
    yield {'k': 'blocked', 'salt': rng.randrange(1 << 30)}
  yield {'k': 'usage', 'salt': rng.randrange(1 << 30)}


def config_for(rng, keys, limit=60):
  while True:
    c = interop.random_config(rng, keys=keys)
    g, t = interop.size_of(c)
    if g and t and g + t <= limit:
      return c


def flags(cmd):
  return dict((f[2:].split('=', 1) + [''])[:2] for f in cmd[1:] if f.startswith('--'))


def check_creation(mon, world, calls, config, complete=True):
  """The create calls make exactly usable key sets, before they are needed."""
  made = {}       # location -> number of the call
  first = min([c.number for c in calls if c.command == 'generate'] or [1 << 30])
  for c in calls:
    if c.command != 'create':
      continue
    mon.check(c.number < first, 'keys are created after data was generated', config=config)
    where = {}
    cmds = c.json['keyczartCommands']
    mon.check(cmds and cmds[0][0] == 'create', lambda: 'the first command of a creation is %r' % cmds[:1], config=config)
    loc = flags(cmds[0]).get('location')
    base, name = os.path.split(loc)
    mon.check(base == os.path.join('keys', c.impl), lambda: '%s is asked to create keys in %s' % (c.impl, loc), config=config)
    crypted = None
    for a in config['algorithms']:
      for s in config['algorithms'][a]['keySizes']:
        if name == a + str(s):
          crypted, alg, size = False, a, s
        elif name == a + str(s) + 'aes128':
          crypted, alg, size = True, a, s
    mon.check(crypted is not None, lambda: 'no algorithm belongs to the key set %s' % loc, config=config)
    al = config['algorithms'][alg]
    mon.check(all(f in cmds[0] for f in al['createFlags']), lambda: 'create flags of %s are missing: %r' % (alg, cmds[0]), config=config)
    have_primary = False
    public = None
    for cmd in cmds[1:]:
      f = flags(cmd)
      mon.check(f.get('location') == loc, lambda: 'a command for %s has the location %s' % (loc, f.get('location')), config=config)
      if cmd[0] == 'addkey':
        mon.check(f.get('size') == str(size) and all(x in cmd for x in al['addKeyFlags']),
                  lambda: 'a key for %s is added by %r' % (loc, cmd), config=config)
        mon.check(f.get('crypter') == (os.path.join('keys', c.impl, 'aes128') if crypted else None),
                  lambda: 'a key for %s is added with crypter %r' % (loc, f.get('crypter')), config=config)
        if crypted:
          mon.check(made.get(f['crypter'], 1 << 30) < c.number, 'an encrypted key set is created before its crypter', config=config)
        have_primary |= f.get('status') == 'primary'
      elif cmd[0] == 'pubkey':
        mon.check(have_primary and f.get('destination') == loc + 'public', lambda: 'public export by %r' % cmd, config=config)
        public = f['destination']
      else:
        mon.violate('unknown command %r' % cmd, config=config)
    mon.check(have_primary, lambda: 'the key set %s gets no primary key' % loc, config=config)
    tree = c.tree.splitlines()
    for d in [loc] + ([public] if public else []):
      mon.check('d' + d in tree, lambda: 'the directory %s does not exist when keys are created' % d, config=config)
      mon.check(d not in made, lambda: 'the key set %s is created twice' % d, config=config)
      left = [t for t in tree if t[0] == 'f' and os.path.dirname(t[1:]) == d]
      mon.check(not left, lambda: 'the directory %s was not emptied: %r' % (d, left[:3]), config=config)
      made[d] = c.number
  if complete:
    for c in calls:
      if c.command == 'create':
        continue
      j = c.json
      o = dict(j.get('testOptions', {}), **j['generateOptions']) if c.command == 'test' else j['generateOptions']
      need = os.path.join(j['keyPath'], j['algorithm'] + o.get('cryptedKeySet', '') + o.get('pubKey', ''))
      mon.check(need in made, lambda: 'nobody created the key set %s' % need, config=config)
      mon.event('keysets-needed')
      if 'signer' in o:
        need2 = os.path.join(j['keyPath'], o['signer'] + o.get('cryptedKeySet', ''))
        mon.check(need2 in made, lambda: 'nobody created the signer %s' % need2, config=config)
  return made


def check_calls(mon, calls, config):
  """Every call carries what belongs to it."""
  outputs = {}
  for c in calls:
    extra = config['implementations'].get(c.impl)
    mon.check(c.args[:-1] == list(extra), lambda: 'arguments of %s: %r, configured: %r' % (c.impl, c.args[:-1], extra), config=config)
    j = c.json
    if c.command == 'generate':
      mon.check(j['keyPath'] == os.path.join('keys', c.impl), lambda: '%s generates with the keys in %s' % (c.impl, j['keyPath']), config=config)
      mon.check(j['testData'] == interop.TESTDATA, lambda: 'test data %r' % j['testData'], config=config)
      try:
        outputs[frozen(json.loads(c.out))] = c
      except ValueError:
        pass
  for c in calls:
    if c.command == 'test':
      g = outputs.get(frozen(c.json['output']))
      mon.check(g is not None, lambda: 'a test was given an output that was not generated: %r' % c.json['output'], config=config)
      same = ('operation', 'algorithm', 'generateOptions', 'keyPath', 'testData')
      mon.check(all(c.json[f] == g.json[f] for f in same), lambda: 'a test and the generation of its data differ: %r, %r' % (
          [c.json[f] for f in same], [g.json[f] for f in same]), config=config)
      mon.event('outputs')


def expected_tests(config):
  return sorted(expected_calls(config)[1])


def made_tests(calls):
  outs = {}
  for c in calls:
    if c.command == 'generate':
      try:
        outs[frozen(json.loads(c.out))] = c.impl
      except ValueError:
        pass
  return sorted(frozen([c.impl, outs.get(frozen(c.json['output'])), c.json['operation'], c.json['algorithm'], c.json['generateOptions'],
                        c.json['testOptions']]) for c in calls if c.command == 'test')


def _created(mon, case):
  rng = random.Random(case['salt'])
  config = config_for(rng, True)
  w = interop.World(mon, config)
  args = ['--verbose=y'] if case['verbose'] else []
  rc, out, err = w.run(*args)
  calls = w.calls()
  mon.check(rc == 0, lambda: 'every call succeeded, but the exit status is %r: %s' % (rc, err[-400:]), config=config)
  check_creation(mon, w, calls, config)
  check_calls(mon, calls, config)
  mon.check(made_tests(calls) == expected_tests(config), 'not every test was called', config=config)
  mon.event('run:created')
  if case['verbose']:
    mon.event('verbose')
  mon.distinct('created', case['salt'])


def _fail(mon, case):
  rng = random.Random(case['salt'])
  config = config_for(rng, case['create'], 40)
  w = interop.World(mon, config)
  args = [] if case['create'] else ['--create=n']
  rc, out, err = w.run(*args)
  calls = w.calls()
  mon.check(rc == 0, lambda: 'every call succeeded, but the exit status is %r: %s' % (rc, err[-400:]), config=config)
  check_calls(mon, calls, config)
  mon.event('run:clean')
  groups = {}
  for c in calls:
    groups.setdefault(c.command, []).append(c.number)
  for r in range(case['runs']):
    cmd = ('test', 'generate', 'test', 'create', 'test')[r % 5]
    if cmd not in groups:
      cmd = 'test'
    pool = groups[cmd]
    n = 1 if rng.random() < .6 else min(len(pool), rng.choice((2, 3, len(pool))))
    plan = {}
    # the first and the last are more interesting than the others
    chosen = [rng.choice((pool[0], pool[-1], rng.choice(pool)))] + rng.sample(pool, n - 1)
    for i in chosen:
      acts = ['exit 1', 'exit 1', 'exit 255', 'exit 2', 'signal 9', 'signal 11', 'signal 6']
      if cmd == 'generate':
        acts += ['garbage', 'empty'] * 2
      elif cmd == 'test' and rng.random() < .15:
        acts = ['noise', 'garbage']        # what a test prints does not matter
      plan[i] = rng.choice(acts)
    w.set_plan(plan)
    rc, out, err = w.run(*(args + (['--verbose=y'] if rng.random() < .3 else [])))
    calls2 = w.calls()
    failed = [c for c in calls2 if c.action in ('exit', 'signal')]
    unusable = [c for c in calls2 if c.command == 'generate' and c.action in ('garbage', 'empty')]
    useless = bool(unusable)
    if unusable and not failed:
      # matters only if a test needs the output
      needed = set(frozen(json.loads(t)[1:5]) for t in expected_tests(config))
      useless = any(frozen([c.impl, c.json['operation'], c.json['algorithm'], c.json['generateOptions']]) in needed for c in unusable)
    for c in calls2:
      if c.action != 'ok':
        mon.event('action:' + c.action)
        mon.event('fail:' + c.command)
        if c.action == 'noise':
          mon.event('noise')
    if len(failed) > 1:
      mon.event('several-failures')
    what = ', '.join('%s call %d of %s: %s' % (c.command, c.number, c.impl, c.action) for c in (failed + unusable)[:4])
    mon.check(any(c.action != 'ok' for c in calls2), 'the run made other calls than the one before', config=config)
    if failed or useless:
      mon.check(rc != 0, lambda: 'the exit status is 0 although calls failed: %s' % what, config=config, plan=plan)
    elif not unusable:
      mon.check(rc == 0, lambda: 'every call succeeded, but the exit status is %r: %s' % (rc, err[-400:]), config=config, plan=plan)
    if failed and all(c.command == 'test' for c in failed) and not unusable:
      mon.check(made_tests(calls2) == expected_tests(config), 'after a failing test others were not called', config=config, plan=plan)
      mon.event('all-tests-ran')
    check_calls(mon, calls2, config)
    mon.distinct('fail', case['salt'], tuple(sorted(plan.items())))


def _dirs(mon, case):
  rng = random.Random(case['salt'])
  config = config_for(rng, True)
  w = interop.World(mon, config)
  impl = list(config['implementations'])
  names = [a + str(s) for a in config['algorithms'] for s in config['algorithms'][a]['keySizes']]
  asym = [a + str(s) for a in config['algorithms'] for s in config['algorithms'][a]['keySizes'] if config['algorithms'][a]['asymmetric']]
  out = os.path.join(w.work, 'outside')
  os.makedirs(os.path.join(out, 'deep'))
  stay, go, pipes = {}, [], []

  def put(path, text, keep):
    path = os.path.join(w.work, path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
      f.write(text)
    if keep:
      stay[path] = text
    else:
      go.append(path)
  put('outside/a', 'precious', True)
  put('outside/deep/1', 'precious 1', True)
  put('keys/stray', 'x', True)
  put('keys/other/aes128/meta', 'of nobody', True)
  for i in impl:
    put('keys/%s/stray' % i, 'y', True)
    for n in rng.sample(names, rng.randrange(1, len(names) + 1)):
      for suffix in ('', 'aes128') + (('public',) if n in asym else ()):
        d = 'keys/%s/%s%s' % (i, n, suffix)
        for f in rng.sample(('meta', '1', '2', '.hidden', 'old file', '3.tmp'), 3):
          put('%s/%s' % (d, f), 'old', False)
        put('%s/sub/1' % d, 'deeper', True)
        put('%s/sub/sub/meta' % d, 'deepest', True)
        put('keys/%s/%s%s-copy/1' % (i, n, suffix), 'similar name', True)
        if rng.random() < .5:
          os.symlink(out, os.path.join(w.work, d, 'link'))
        if rng.random() < .5:
          os.symlink(os.path.join(out, 'a'), os.path.join(w.work, d, 'filelink'))
        if case['create'] and rng.random() < .3:
          os.mkfifo(os.path.join(w.work, d, 'pipe'))
          pipes.append(os.path.join(w.work, d, 'pipe'))
  before = None if case['create'] else life.snapshot(w.work)
  rc, o, err = w.run(*([] if case['create'] else ['--create=n']))
  calls = w.calls()
  mon.check(rc == 0, lambda: 'every call succeeded, but the exit status is %r: %s' % (rc, err[-400:]), config=config)
  for p, text in stay.items():
    now = open(p).read() if os.path.exists(p) else None
    mon.check(now == text, lambda: 'the file %s was %s' % (os.path.relpath(p, w.work), 'changed' if now else 'removed'), config=config)
  for p in pipes:
    mon.check(os.path.lexists(p), lambda: 'the pipe %s was removed' % os.path.relpath(p, w.work), config=config)
  if not case['create']:
    mon.check(life.snapshot(w.work) == before, 'files changed although no keys were to be created', config=config)
    mon.event('untouched')
  else:
    check_creation(mon, w, calls, config)
    for p in go:
      mon.check(not os.path.exists(p), lambda: 'the old file %s is still there' % os.path.relpath(p, w.work), config=config)
    mon.event('directories')
  mon.distinct('dirs', case['salt'])


def _missing(mon, case):
  """An implementation that is not there, or cannot be executed."""
  rng = random.Random(case['salt'])
  config = config_for(rng, False)
  bad = rng.choice(list(config['implementations']))
  other = dict(config, implementations=dict(config['implementations'], **{bad: [rng.choice(('/nonexistent/impl', '/etc/hostname', '/'))]}))
  w = interop.World(mon, other)
  rc, out, err = w.run('--create=n')
  used = any(bad in (m[0],) + tuple(t[0] for t in m[4]) for m in interop.matrix(config))
  mon.check((rc != 0) == used, lambda: 'exit status %r although %s cannot be called' % (rc, bad), config=other)
  mon.event('missing-implementation')
  mon.distinct('missing', case['salt'])


def _blocked(mon, case):
  """A file stands where a key directory has to be made."""
  rng = random.Random(case['salt'])
  config = config_for(rng, True)
  w = interop.World(mon, config)
  i = rng.choice(list(config['implementations']))
  a = rng.choice(list(config['algorithms']))
  n = a + str(rng.choice(config['algorithms'][a]['keySizes'])) + rng.choice(('', 'aes128'))
  p = rng.choice(('keys', 'keys/' + i, 'keys/%s/%s' % (i, n)))
  p = os.path.join(w.work, p)
  os.makedirs(os.path.dirname(p), exist_ok=True)
  with open(p, 'w') as f:
    f.write('in the way')
  rc, out, err = w.run()
  mon.check(rc != 0, lambda: 'exit status 0 although a key directory could not be made', config=config)
  mon.check(os.path.isfile(p) and open(p).read() == 'in the way', 'the file in the way was removed', config=config)
  mon.check(not [c for c in w.calls() if c.command == 'test'], 'tests ran although the keys could not be created')
  mon.event('blocked')
  mon.distinct('blocked', case['salt'])


def _usage(mon, case):
  rng = random.Random(case['salt'])
  config = config_for(rng, False)
  w = interop.World(mon, config)
  for args in (['--create=x'], ['--verbose=1'], ['nonsense'], ['--nonsense=y'], ['--create'], ['--create=n', 'x'], ['--help']):
    rc, out, err = w.run(*args)
    mon.check(rc != 0, lambda: 'arguments %r: exit status 0' % args)
    mon.check(not w.calls(), lambda: 'arguments %r: implementations were called' % args)
    mon.event('usage')
    mon.distinct('usage', tuple(args))


def _real(mon, case):
  """The real thing: keyczar itself as the implementation, with the shipped options."""
  config = interop.shipped()
  impl = [sys.executable, os.path.join(os.path.dirname(os.path.abspath(interop.__file__)), 'realimpl.py')]
  config['implementations'] = {'python': impl}
  al = config['algorithms']
  if not case['big']:
    config['algorithms'] = {'aes': dict(al['aes'], keySizes=[128]), 'hmac': al['hmac'], 'dsa': al['dsa']}
    config['key_set_options']['crypt']['generateOptions']['class'] = ['crypter']
    for op in ('attached', 'unversioned', 'sign', 'encrypt'):
      config['operations'][op]['generateOptions']['encoding'] = ['encoded'] if op in ('sign', 'encrypt') else ['unencoded']
  else:
    al['rsa-crypt']['keySizes'] = [2048]
    al['rsa-sign']['keySizes'] = [1024]
  w = interop.World(mon, config)
  w.environ = {'KZMON_REPO': interop.env.REPO}
  rc, out, err = w.run(timeout=140 if not case['big'] else 1200)
  n = sum(len(m[4]) for m in interop.matrix(config))
  mon.check(rc == 0, lambda: 'the interop tests of the Python implementation fail: exit status %r; %s' % (rc, (out[-300:] + err[-900:])))
  mon.event('real', n)
  mon.distinct('real')


def run(mon, case):
  {'created': _created, 'fail': _fail, 'dirs': _dirs, 'missing': _missing, 'blocked': _blocked, 'usage': _usage, 'real': _real}[case['k']](
      mon, case)
