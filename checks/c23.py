"""C23: the interop matrix covers every combination that is not ignored."""
import ast
import collections
import json
import random

from kzmon import interop

ID = 'C23'
LEVEL = 'exploration'
RULE = ('one configuration whose generate and test calls, as logged by the implementations (real processes), and displayed tests were compared '
        'with the product model: distinct by configuration')
REQUIRED = ('config:random', 'config:shipped', 'calls:generate', 'calls:test', 'displayed', 'rule:matched', 'rule:partly', 'asymmetric:crypt',
            'asymmetric:sign', 'macro', 'no-options', 'empty-list', 'equal-names', 'options-listing', 'reasons')
ASSUMPTIONS = ('no option is defined twice for a test (by key set and operation, or for generate and test): which definition wins is not documented',
               'names of algorithms and sizes do not collide when joined (aes1+28, aes+128)',)


def setup():
  interop.build()
  interop.user_args()


def cases(rng, tier):
  for cmd in ('display', 'options', 'run'):
    yield {'k': 'shipped', 'cmd': cmd}
  for i in range(180 if tier == 'quick' else 1500):
    yield {'k': 'random', 'salt': rng.randrange(1 << 30), 'limit': 120 if tier == 'quick' else 400}
  yield {'k': 'equal', 'n': 0}
  yield {'k': 'equal', 'n': 1}


def frozen(x):
  return json.dumps(x, sort_keys=True)


def compare(mon, what, got, want, config):
  got, want = collections.Counter(got), collections.Counter(want)
  lost, extra = want - got, got - want
  mon.judged += sum(want.values())
  if lost or extra:
    mon.violate('%s: %d missing, %d not expected; missing: %s; not expected: %s' % (
        what, sum(lost.values()), sum(extra.values()), '; '.join(sorted(lost)[:2]) or '-', '; '.join(sorted(extra)[:2]) or '-'),
        config=config)


def expected_calls(config):
  gens, tests = [], []
  for gi, op, alg, g, ts in interop.matrix(config):
    gens.append(frozen([gi, op, alg, g]))
    for ti, t in ts:
      tests.append(frozen([ti, gi, op, alg, g, t]))
  return gens, tests


def check_display(mon, world, config):
  rc, out, err = world.run('display')
  mon.check(rc == 0, lambda: 'display: exit status %r, %s' % (rc, err[-300:]), config=config)
  names = '|'.join(sorted(map(_esc, config['implementations']), key=len, reverse=True))
  want = []
  for gi, op, alg, g, ts in interop.matrix(config):
    for ti, t in ts:
      want.append(frozen(['test_%s_generated_by_%s_%s_%s_' % (ti, gi, op, alg),
                          sorted(['%s=%s' % o for o in list(g.items()) + list(t.items())])]))
  heads = sorted(set(json.loads(w)[0] for w in want), key=len, reverse=True)
  got = []
  for line in out.splitlines():
    if not line.strip():
      continue
    for h in heads:
      if line.startswith(h):
        rest, opts = line[len(h):], []
        # options are name=value, joined by _; a value may contain _
        for part in rest.split('_'):
          if '=' in part:
            opts.append(part)
          elif part and opts:
            opts[-1] += '_' + part
        got.append(frozen([h, sorted(opts)]))
        break
    else:
      got.append(line)
  compare(mon, 'the displayed tests are not the product minus the ignored ones', got, want, config)
  mon.event('displayed', len(want) or 1)


def _esc(s):
  import re
  return re.escape(s)


def check_options(mon, world, config):
  rc, out, err = world.run('options')
  mon.check(rc == 0, lambda: 'options: exit status %r, %s' % (rc, err[-300:]), config=config)
  want = {'generateOptions': {}, 'testOptions': {}}
  for op, o in config['operations'].items():
    for alg, size, purpose in interop.keysets(config, o['keytype']):
      for which, ps in (('generateOptions', [purpose]), ('testOptions', interop.test_purposes(config, alg, purpose))):
        for p in ps:
          for combo in interop.options(config, op, p, which):
            for n, v in combo.items():
              want[which].setdefault(op, {}).setdefault(n, set()).add(v)
  got, which, op = {'generateOptions': {}, 'testOptions': {}}, None, None
  for line in out.splitlines():
    if line.startswith('Generate'):
      which = 'generateOptions'
    elif line.startswith('Test'):
      which = 'testOptions'
    elif line.startswith('    '):
      n, v = line.strip().split(': ', 1)
      got[which].setdefault(op, {})[n] = set(ast.literal_eval(v))
    elif line.startswith('  '):
      op = line.strip().rstrip(':')
  mon.check(got == want, lambda: 'the listed options are %r, must be %r' % (got, want), config=config)
  mon.event('options-listing')


def check_run(mon, world, config):
  rc, out, err = world.run('--create=n')
  calls = world.calls()
  gens, tests = expected_calls(config)
  mon.check(rc == 0, lambda: 'all implementations succeed, but the exit status is %r: %s' % (rc, err[-400:]), config=config)
  compare(mon, 'generate calls are not the product minus the ignored ones',
          [frozen([c.impl, c.json['operation'], c.json['algorithm'], c.json['generateOptions']]) for c in calls if c.command == 'generate'],
          gens, config)
  by_out = {}
  for c in calls:
    if c.command == 'generate':
      by_out[frozen(json.loads(c.out))] = c
  got = []
  for c in calls:
    if c.command != 'test':
      continue
    src = by_out.get(frozen(c.json['output']))
    mon.check(src is not None, lambda: 'a test got an output that nobody generated: %r' % c.json['output'], config=config)
    mon.check((c.json['operation'], c.json['algorithm'], c.json['generateOptions']) == (
        src.json['operation'], src.json['algorithm'], src.json['generateOptions']),
        lambda: 'a test of %s %s %r got the output generated for %s %s %r' % (
            c.json['operation'], c.json['algorithm'], c.json['generateOptions'], src.json['operation'], src.json['algorithm'],
            src.json['generateOptions']), config=config)
    got.append(frozen([c.impl, src.impl, c.json['operation'], c.json['algorithm'], c.json['generateOptions'], c.json['testOptions']]))
  compare(mon, 'test calls are not the product minus the ignored ones', got, tests, config)
  mon.check(not [c for c in calls if c.command not in ('generate', 'test')], 'calls of other kinds although no keys were to be created')
  mon.event('calls:generate', len(gens))
  mon.event('calls:test', len(tests))
  if any(r['reason'] in out for r in config['ignored']):
    mon.event('reasons')


def features(mon, config):
  m = interop.matrix(dict(config, ignored=[]))
  n = interop.matrix(config)
  if (len(m), sum(len(x[4]) for x in m)) != (len(n), sum(len(x[4]) for x in n)):
    mon.event('rule:matched')
    if n:
      mon.event('rule:partly')
  for a in config['algorithms'].values():
    if a['asymmetric'] and a['keySizes']:
      mon.event('asymmetric:' + a['purpose'])
  for o in config['operations'].values():
    if 'ALL_SIGNING_KEYS' in o['generateOptions'].values():
      mon.event('macro')
    for p in config['key_set_options'].values():
      for w in ('generateOptions', 'testOptions'):
        if not p[w] and not o[w]:
          mon.event('no-options')
        if [] in list(p[w].values()) + list(o[w].values()):
          mon.event('empty-list')


def run(mon, case):
  if case['k'] == 'shipped':
    config = interop.shipped()
    if case['cmd'] == 'run':
      # the shipped one with one implementation (a third of the product squared)
      config['implementations'] = {'java': []}
    world = interop.World(mon, config)
    {'display': check_display, 'options': check_options, 'run': check_run}[case['cmd']](mon, world, config)
    mon.event('config:shipped')
    mon.distinct('shipped', case['cmd'])
    features(mon, config)
    return
  if case['k'] == 'equal':
    # option values that do not tell the tests apart
    config = {'implementations': {'a': [], 'b': []}, 'ignored': [],
              'algorithms': {'rsa': {'purpose': 'crypt', 'asymmetric': True, 'keySizes': [1024], 'createFlags': [], 'addKeyFlags': []},
                             'dsa': {'purpose': 'sign', 'asymmetric': True, 'keySizes': [1024], 'createFlags': [], 'addKeyFlags': []}},
              'operations': {'encrypt': {'keytype': 'crypt', 'generateOptions': {}, 'testOptions': {}},
                             'sign': {'keytype': 'sign', 'generateOptions': {}, 'testOptions': {}}},
              'key_set_options': {
                  'crypt': {'generateOptions': {'class': ['public']}, 'testOptions': {}},
                  'encrypt': {'generateOptions': {'pubKey': ['public']}, 'testOptions': {}},
                  'sign': {'generateOptions': {}, 'testOptions': {'class': ['x', 'public']}},
                  'verify': {'generateOptions': {}, 'testOptions': {'pubKey': ['public']}}}}
    if case['n']:
      config['key_set_options']['crypt']['generateOptions'] = {'x': ['a', 'a_b'], 'y': ['b_c', 'c']}
    mon.event('equal-names')
  else:
    rng = random.Random(case['salt'])
    while True:
      config = interop.random_config(rng)
      g, t = interop.size_of(config)
      if 0 < g + t <= case['limit'] or rng.random() < .02 and g + t <= case['limit']:
        break
    mon.event('config:random')
  features(mon, config)
  world = interop.World(mon, config)
  check_run(mon, world, config)
  check_display(mon, world, config)
  check_options(mon, world, config)
  mon.distinct(frozen(config))
