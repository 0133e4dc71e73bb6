"""The monitor framework: runs cases, collects verdicts, writes the evidence.

A check is a module in checks/ with
  ID, LEVEL, RULE          see EVIDENCE.schema.json
  REQUIRED                 events that must have been observed, else inconclusive
  cases(rng, tier)         yields JSON-able dicts, deterministically for a seed
  run(mon, case)           drives the real code and judges what it observes
A run either returns (held on this case) or calls mon.violate().
"""
import collections
import hashlib
import importlib
import json
import os
import pickle
import random
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

from . import env, ref

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 150   # seconds; cases take milliseconds


class Violation(Exception):

  def __init__(self, msg, detail):
    Exception.__init__(self, msg)
    self.msg, self.detail = msg, detail


class Hang(BaseException):
  pass


class Outcome(object):
  """What a call into the code under test did."""

  def __init__(self, value=None, exc=None, tb=None):
    self.value, self.exc, self.tb = value, exc, tb

  @property
  def ok(self):
    return self.exc is None

  @property
  def kind(self):
    return 'returned' if self.ok else type(self.exc).__name__

  def __repr__(self):
    if self.ok:
      return 'returned %s' % short(self.value)
    return 'raised %s: %s' % (type(self.exc).__name__, short(str(self.exc)))


def short(v, n=160):
  r = v if isinstance(v, str) and v.isprintable() else repr(v)
  return r if len(r) <= n else '%s... (%d chars)' % (r[:n], len(r))


class Monitor(object):

  def __init__(self, seed, tier, scratch):
    self.seed, self.tier, self.scratch = seed, tier, scratch
    self.events = collections.Counter()
    self.seen = set()
    self.judged = 0
    self.samples = []
    self._dirs = 0

  # -- recording

  def event(self, name, n=1):
    self.events[name] += n

  def distinct(self, *key):
    """Registers a distinct, non-trivial situation that an oracle has judged."""
    h = hashlib.blake2b(repr(key).encode('utf-8', 'replace'), digest_size=8).digest()
    self.seen.add(h)

  def sample(self, **kw):
    if len(self.samples) < 3:
      self.samples.append(dict((k, v if isinstance(v, (int, float, bool, type(None), list, dict))
                                else short(v, 300)) for k, v in kw.items()))

  # -- driving

  def call(self, fn, *args, **kw):
    try:
      return Outcome(value=fn(*args, **kw))
    except Hang:
      raise
    except (Exception, SystemExit) as e:
      return Outcome(exc=e, tb=traceback.format_exc())

  def must(self, what, fn, *args, **kw):
    """The call has to succeed, the property depends on it."""
    o = self.call(fn, *args, **kw)
    if not o.ok:
      self.violate('%s: %r' % (what, o), traceback=o.tb)
    return o.value

  def tmpdir(self):
    self._dirs += 1
    d = os.path.join(self.scratch, 'd%d' % self._dirs)
    os.makedirs(d)
    return d

  def clean(self):
    for n in os.listdir(self.scratch):
      shutil.rmtree(os.path.join(self.scratch, n), ignore_errors=True)

  # -- judging

  def violate(self, msg, **detail):
    raise Violation(msg, detail)

  def check(self, cond, msg, **detail):
    self.judged += 1
    if not cond:
      self.violate(msg() if callable(msg) else msg,
                   **dict((k, v() if callable(v) else v) for k, v in detail.items()))


def _Jsonable(v):
  if isinstance(v, dict):
    return dict((str(k), _Jsonable(x)) for k, x in v.items())
  if isinstance(v, (list, tuple, set, frozenset)):
    return [_Jsonable(x) for x in v]
  if isinstance(v, bytes):
    return v.hex()
  if isinstance(v, (str, int, float, bool, type(None))):
    return v
  return repr(v)


def _Alarm(signum, frame):
  raise Hang()


def _SeedUrandom(check, mon, case):
  """
  Makes a case reproducible: the operating system's randomness is replaced by a
  generator seeded with the case, unless the check is about randomness.
  """
  if getattr(check, 'REAL_RANDOM', False):
    return
  r = random.Random('%s/%s' % (mon.seed, json.dumps(case, sort_keys=True)))
  env.Entropy.use(r.randbytes)


def RunCase(check, mon, case):
  """Returns None or a dict describing the violation."""
  _SeedUrandom(check, mon, case)
  signal.signal(signal.SIGALRM, _Alarm)
  timeout = getattr(check, 'CASE_TIMEOUT', {}).get(mon.tier, CASE_TIMEOUT)
  signal.setitimer(signal.ITIMER_REAL, timeout)
  try:
    check.run(mon, case)
    return None
  except Violation as v:
    return {'message': v.msg, 'detail': _Jsonable(v.detail), 'case': case}
  except Hang:
    return {'message': 'the operation did not finish within %d s (cases take milliseconds)'
                       % timeout,
            'detail': {'stack': traceback.format_exc()}, 'case': case}
  except (ref.FormatError, ValueError, TypeError, LookupError, AttributeError) as e:
    if isinstance(e, AttributeError) and 'module' in str(e):
      raise   # something this check uses is gone: an error of the check
    return {'message': 'what the code produced could not be interpreted: %s: %s'
                       % (type(e).__name__, e),
            'detail': {'stack': traceback.format_exc()}, 'case': case}
  finally:
    signal.setitimer(signal.ITIMER_REAL, 0)
    env.Entropy.use()
    mon.clean()


def _Worker(check, seed, tier, idx, total, wfd, deadline):
  scratch = tempfile.mkdtemp(prefix='kzmon-%s-' % check.ID)
  sys.stdout = open(os.devnull, 'w')   # the tool prints warnings and usage
  mon = Monitor(seed, tier, scratch)
  violations, ran, skipped, error = [], 0, 0, None
  msgs = set()
  try:
    rng = random.Random('%s/%s/%s' % (check.ID, seed, tier))
    for i, case in enumerate(check.cases(rng, tier)):
      if i % total != idx:
        continue
      if time.time() > deadline:
        skipped += 1
        continue
      if len(mon.samples) < 2:
        mon.sample(case=case)
      v = RunCase(check, mon, case)
      ran += 1
      if v and v['message'][:60] not in msgs:
        msgs.add(v['message'][:60])
        v['index'] = i
        violations.append(v)
        if len(violations) >= 3:
          break
  except BaseException:
    error = traceback.format_exc()
  finally:
    shutil.rmtree(scratch, ignore_errors=True)
  blob = pickle.dumps({'events': dict(mon.events), 'seen': mon.seen, 'judged': mon.judged,
                       'samples': mon.samples, 'violations': violations, 'ran': ran,
                       'skipped': skipped, 'error': error})
  with os.fdopen(wfd, 'wb') as f:
    f.write(blob)


def _KnownFindings(prop):
  """Lines 'known: property=<id> match=<substring of the message> :: <text>'."""
  out = []
  path = os.path.join(VERIF, 'known_findings.txt')
  if os.path.exists(path):
    for line in open(path):
      if line.startswith('known: property=%s ' % prop):
        head, text = line.strip().split(' :: ', 1)
        out.append((head.split(' match=', 1)[1], text))
  return out


def WriteReplay(check, seed, tier, v):
  d = os.path.join(VERIF, 'replays')
  os.makedirs(d, exist_ok=True)
  h = hashlib.sha1(json.dumps(v, sort_keys=True, default=repr).encode()).hexdigest()[:10]
  path = os.path.join(d, '%s-%s.json' % (check.ID, h))
  with open(path, 'w') as f:
    json.dump({'property': check.ID, 'seed': seed, 'tier': tier, 'message': v['message'],
               'case': v['case'], 'detail': v['detail'],
               'how': 'bash /verif/run.sh %s replay %s' % (check.ID, path)},
              f, indent=1, default=repr)
  return path


def Main(argv):
  prop = argv[0]
  tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  check = importlib.import_module('checks.' + prop.lower())
  if hasattr(check, 'setup'):
    check.setup()
  if tier == 'replay':
    with open(argv[2]) as f:
      r = json.load(f)
    scratch = tempfile.mkdtemp(prefix='kzmon-%s-' % check.ID)
    try:
      v = RunCase(check, Monitor(r['seed'], r['tier'], scratch), r['case'])
    finally:
      shutil.rmtree(scratch, ignore_errors=True)
    if v:
      print(v['message'])
      print(json.dumps(v['detail'], indent=1, default=repr))
      print('VIOLATION property=%s replay=%s' % (check.ID, argv[2]))
      return 1
    print('held')
    return 0

  start = time.time()
  budget = getattr(check, 'BUDGET', {}).get(tier, 300 if tier == 'quick' else 2400)
  workers = min(getattr(check, 'WORKERS', 8), os.cpu_count() or 1)
  procs = []
  sys.stdout.flush()
  for idx in range(workers):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
      code = 0
      try:
        os.close(r)
        _Worker(check, seed, tier, idx, workers, w, start + budget)
      except BaseException:
        traceback.print_exc()
        code = 3
      finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)
    os.close(w)
    procs.append((pid, r))

  import select
  fds = dict((r, bytearray()) for _, r in procs)
  live = set(fds)
  while live:
    ready, _, _ = select.select(list(live), [], [], 1)
    for fd in ready:
      chunk = os.read(fd, 1 << 20)
      if chunk:
        fds[fd] += chunk
      else:
        live.discard(fd)
        os.close(fd)
  results = []
  for pid, r in procs:
    os.waitpid(pid, 0)
    if not fds[r]:
      print('ERROR: a worker of %s died' % prop)
      return 3
    results.append(pickle.loads(bytes(fds[r])))

  events = collections.Counter()
  seen = set()
  samples, violations, errors = [], [], []
  judged = ran = skipped = 0
  for res in results:
    events.update(res['events'])
    seen |= res['seen']
    samples += res['samples']
    violations += res['violations']
    judged += res['judged']
    ran += res['ran']
    skipped += res['skipped']
    if res['error']:
      errors.append(res['error'])

  known = _KnownFindings(prop)
  fresh, listed = [], {}
  for v in violations:
    for match, text in known:
      if match in v['message']:
        listed[text] = True
        break
    else:
      fresh.append(v)
  missing = [e for e in getattr(check, 'REQUIRED', ()) if not events.get(e)]

  wall = time.time() - start
  ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': check.LEVEL,
        'coverage': {'evaluations': judged, 'distinct_nontrivial': len(seen),
                     'rule': check.RULE, 'samples': samples[:6],
                     'executions': ran, 'cases_skipped_for_time': skipped,
                     'monitor_events': dict(sorted(events.items())),
                     'worker_processes': workers},
        'assumptions': list(getattr(check, 'ASSUMPTIONS', ())) + [
            'Crypto.Random and Crypto.Cipher.AES.new of the installed PyCrypto are '
            'replaced by os.urandom and OpenSSL (they cannot run on Python 3.12)'],
        'wall_s': round(wall, 2), 'violations': len(fresh)}
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
    json.dump(ev, f, indent=1, default=repr)

  print('%s %s seed=%d: %d cases, %d judgements, %d distinct, %.1f s' %
        (prop, tier, seed, ran, judged, len(seen), wall))
  print('  events: %s' % ', '.join('%s=%d' % kv for kv in sorted(events.items())))
  for text in sorted(listed):
    print('KNOWN-FINDING: property=%s %s' % (prop, text))
  if fresh:
    fresh.sort(key=lambda v: v.get('index', 0))
    for v in fresh[:5]:
      path = WriteReplay(check, seed, tier, v)
      print('  %s' % v['message'])
      print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1
  if errors:
    print('ERROR in the check itself:\n%s' % errors[0])
    return 3
  if missing:
    print('INCONCLUSIVE: never observed: %s' % ', '.join(missing))
    return 4
  if skipped:
    print('NOTE: %d cases skipped, time budget of %d s used up' % (skipped, budget))
  print('HELD on everything observed')
  return 0
