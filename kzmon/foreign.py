"""
Drives the implementations of keyczar in other languages.

C++: built from /repo's working tree with AddressSanitizer, LeakSanitizer and
UndefinedBehaviorSanitizer, every report of which ends the process; driven through
cpp/driver.cc, which calls the library's public interface.  cpp/openssl_compat.h
gives the sources, which were written for OpenSSL 0.9.8, its structures on
OpenSSL 3.
"""
import concurrent.futures
import hashlib
import os
import re
import shutil
import subprocess
import tempfile
import time

from .env import REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
CPP = os.path.join(REPO, 'cpp', 'src')
NOT_LIB = re.compile(r'_unittest|_win\b|_win\.|/unittests|run_all|_test|testdata_gen|keyczart\.cc|/interop/')
FLAGS = ['-std=gnu++14', '-w', '-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
         '-DNDEBUG', '-DCOMPAT_KEYCZAR_06B', '-DHAVE_ZLIB=1', '-include', os.path.join(VERIF, 'cpp', 'openssl_compat.h')]
OPTIONS = {'ASAN_OPTIONS': 'exitcode=77:abort_on_error=0:detect_leaks=1:leak_check_at_exit=0:detect_stack_use_after_return=1:'
                           'allocator_may_return_null=1:handle_abort=0:max_allocation_size_mb=4096:symbolize=1',
           'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
           'LSAN_OPTIONS': 'print_suppressions=0'}


def _read(path):
  with open(path, 'rb') as f:
    return f.read()


def _objects(sources, stamp, flags, cwd):
  """Compiles what is not in the cache; returns the object files."""
  cache = os.path.join(BUILD, 'obj')
  os.makedirs(cache, exist_ok=True)
  jobs = []
  for s in sources:
    h = hashlib.sha1(stamp + _read(s) + ' '.join(flags).encode() + s.encode()).hexdigest()[:20]
    jobs.append((s, os.path.join(cache, h + '.o')))

  def one(job):
    src, obj = job
    if os.path.exists(obj):
      os.utime(obj)
      return None
    fd, tmp = tempfile.mkstemp(dir=cache, suffix='.o')
    os.close(fd)
    r = subprocess.run(['g++'] + flags + ['-I.', '-c', src, '-o', tmp], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
      os.unlink(tmp)
      return r.stdout.decode('utf-8', 'replace')
    os.replace(tmp, obj)
    return None

  with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
    bad = [x for x in ex.map(one, jobs) if x]
  if bad:
    raise RuntimeError('the C++ sources do not compile:\n' + bad[0][:4000])
  used = set(o for _, o in jobs)
  old = sorted((o for o in (os.path.join(cache, n) for n in os.listdir(cache)) if o not in used and o.endswith('.o')), key=os.path.getmtime)
  for o in old[:-400]:
    os.unlink(o)
  return [o for _, o in jobs]


def _cpp_sources():
  headers, sources, programs = [], [], []
  for d, dirs, names in os.walk(os.path.join(CPP, 'keyczar')):
    dirs.sort()
    for n in sorted(names):
      p = os.path.join(d, n)
      if n.endswith('.h'):
        headers.append(p)
      elif n.endswith(('.cc', '.c', '.cpp')):
        if not NOT_LIB.search(os.path.relpath(p, CPP)):
          sources.append(p)
        elif os.path.basename(d) == 'interop' and '_unittest' not in n:
          programs.append(p)
  stamp = hashlib.sha1()
  for h in headers + [os.path.join(VERIF, 'cpp', 'openssl_compat.h')]:
    stamp.update(h.encode() + _read(h))
  return sources, programs, stamp.digest()


def _stale(name):
  """Whether a product of BUILD is too old to be in use by another run."""
  try:
    return time.time() - os.stat(os.path.join(BUILD, name)).st_mtime > 7200
  except OSError:
    return False


def _link(objs, what):
  name = hashlib.sha1(' '.join(objs).encode()).hexdigest()[:16]
  exe = os.path.join(BUILD, '%s-%s' % (what, name))
  if not os.path.exists(exe):
    for n in os.listdir(BUILD):
      if n.startswith(what + '-') and _stale(n):
        os.unlink(os.path.join(BUILD, n))
    fd, tmp = tempfile.mkstemp(dir=BUILD)
    os.close(fd)
    r = subprocess.run(['g++', '-fsanitize=address,undefined', '-o', tmp] + objs + ['-lcrypto', '-lz'], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if r.returncode:
      os.unlink(tmp)
      raise RuntimeError('the C++ programs do not link:\n' + r.stdout.decode('utf-8', 'replace')[:4000])
    os.chmod(tmp, 0o755)
    os.replace(tmp, exe)
  else:
    os.utime(exe)
  return exe


def cpp_build():
  """The driver, built from the working tree."""
  sources, _, stamp = _cpp_sources()
  return _link(_objects(sources + [os.path.join(VERIF, 'cpp', 'driver.cc')], stamp, FLAGS, CPP), 'cppdriver')


def cpp_interop():
  """The program for the interop runner, built from the working tree."""
  sources, programs, stamp = _cpp_sources()
  return _link(_objects(sources + programs, stamp, FLAGS, CPP), 'cppinterop')


class Died(Exception):

  def __init__(self, status, report, op, args):
    Exception.__init__(self, 'status %s' % status)
    self.status, self.report, self.op, self.args_ = status, report, op, args

  def what(self):
    r = self.report
    for pat in (r'SUMMARY: (.*)', r'([^\n]*runtime error: [^\n]*)', r'([^\n]*(?:FATAL|Check failed)[^\n]*)', r"(terminate called[^\n]*)"):
      m = re.search(pat, r)
      if m:
        return re.sub(r'0x[0-9a-f]+', '0x..', m.group(1))[:200]
    return 'status %s' % self.status


class Driver(object):
  """A process that executes requests, one line each."""

  def __init__(self, argv, env=None):
    self.log = tempfile.TemporaryFile()
    e = dict((k, v) for k, v in os.environ.items() if not k.startswith(('LD_', 'DYLD')))
    e.update(env or {})
    self.proc = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log, env=e, cwd='/', bufsize=0, start_new_session=True)
    self.calls = 0

  def report(self):
    self.log.seek(0)
    return self.log.read()[-60000:].decode('utf-8', 'replace')

  def clear(self):
    self.log.seek(0)
    self.log.truncate()

  def call(self, op, *args):
    """('ok', results) | ('no',) | ('exc', text); raises Died."""
    line = op
    for a in args:
      if isinstance(a, str):
        a = os.fsencode(a)
      elif isinstance(a, int):
        a = b'%d' % a
      line += ' ' + (a.hex() or '-')
    self.calls += 1
    try:
      data = (line + '\n').encode()
      while data:
        data = data[self.proc.stdin.write(data):]
      out = self._readline()
    except (BrokenPipeError, OSError):
      out = b''
    if not out.endswith(b'\n'):
      status = self.proc.wait()
      raise Died(status, self.report(), op, args)
    out = out.decode('latin-1').rstrip('\n')
    parts = out.split(' ')
    if parts[0] == 'ok':
      return ('ok',) + tuple(parts[1:])
    if parts[0] == 'no':
      return ('no',)
    return ('exc', out[4:])

  def _readline(self):
    buf = b''
    while not buf.endswith(b'\n'):
      chunk = os.read(self.proc.stdout.fileno(), 1 << 16)
      if not chunk:
        return buf
      buf += chunk
    return buf

  def close(self):
    try:
      self.proc.stdin.close()
      self.proc.stdout.close()
    except OSError:
      pass
    self.proc.kill()
    self.proc.wait()
    self.log.close()


def unhex(s):
  return b'' if s == '-' else bytes.fromhex(s)


_exe = []
_driver = []


def setup_cpp():
  _exe[:] = [cpp_build()]


def driver():
  if not _driver:
    _driver.append(Driver([_exe[0]], OPTIONS))
  return _driver[0]


def drop():
  if _driver:
    _driver.pop().close()


class Cpp(object):
  """
  The C++ library, watched: a sanitizer report, a failed assertion that ends the
  process, an exception that leaves the library or a leak is a violation.
  """
  fails = False      # the result of a call that reported failure

  def __init__(self, mon, watch=True):
    self.mon, self.watch = mon, watch
    self.d = driver()

  def raw(self, op, *args):
    try:
      r = self.d.call(op, *args)
    except Died as e:
      drop()
      self.mon.violate('C++: the process ended in %s: %s' % (op, e.what()), report=e.report[-6000:], op=op, args=[_show(a) for a in args])
    except BaseException:
      drop()
      raise
    self.mon.event('cpp:' + op)
    if r[0] == 'exc':
      self.mon.violate('C++: an exception left %s: %s' % (op, r[1][:100]), op=op, args=[_show(a) for a in args])
    return r

  def do(self, op, *args):
    """bytes, True or None for failure."""
    r = self.raw(op, *args)
    if r[0] == 'no':
      return None
    return unhex(r[1]) if len(r) > 1 else True

  def open(self, kind, location, storage='plain', secret=''):
    """A handle or None."""
    r = self.raw('open', kind, storage, secret, location)
    return None if r[0] == 'no' else int(r[1])

  def newsession(self, enc, sig, bits=128):
    r = self.raw('newsession', enc, sig, bits)
    return None if r[0] == 'no' else int(r[1])

  def opensession(self, cry, ver, material):
    r = self.raw('opensession', cry, ver, material)
    return None if r[0] == 'no' else int(r[1])

  def tool(self, *argv):
    return self.raw('tool', *argv)[0] == 'ok'

  def done(self, leaks=True):
    """Ends a case: everything is closed, and nothing may be left allocated."""
    self.raw('closeall', '')
    if leaks and leak_checks():
      r = self.raw('leaks')
      self.mon.event('leak-checks')
      if r[1:] != ('0',):
        rep = self.d.report()
        drop()
        m = re.search(r'(?:Direct|Indirect) leak of[^\n]*\n((?:\s+#\d[^\n]*\n)+)', rep)
        frames = re.findall(r'in (\S+?)\(?[ (].*?(/repo/\S+)', m.group(1))[:3] if m else []
        self.mon.violate('C++: memory is lost: %s' % ' < '.join(f[0].split('(')[0] for f in frames), report=rep[-6000:])
    self.d.clear()


def _show(a):
  if isinstance(a, bytes):
    return a[:4000].hex()
  return str(a)[:4000]


_leak = []


def leak_checks():
  """Whether LeakSanitizer works here (it needs to trace its own process)."""
  if not _leak:
    d = Driver([_exe[0]], OPTIONS)
    try:
      d.call('leak', '')
      r = d.call('leaks', '')
      _leak.append(r[0] == 'ok' and r[1] != '0')
    except Died:
      _leak.append(False)
    finally:
      d.close()
  return _leak[0]


def controls(mon):
  """The sanitizers of this build do report."""
  for op, text in (('smash', 'heap-buffer-overflow'), ('overflow', 'signed integer overflow')):
    d = Driver([_exe[0]], OPTIONS)
    try:
      d.call(op, 'x')
      raise RuntimeError('the sanitizers do not report: ' + op)
    except Died as e:
      if text not in e.report:
        raise RuntimeError('the sanitizers do not report %s: %s' % (op, e.report[:1000]))
      mon.event('control:' + op)
    finally:
      d.close()
  if leak_checks():
    mon.event('control:leak')


# Java

JAVA = os.path.join(REPO, 'java', 'code', 'src')
_jdir = []
_jdriver = []


def java_build():
  """The directory of the classes, compiled from the working tree."""
  sources, others = [], []
  for top in (JAVA, os.path.join(VERIF, 'java')):
    for d, dirs, names in os.walk(top):
      dirs.sort()
      for n in sorted(names):
        (sources if n.endswith('.java') else others).append((top, os.path.join(d, n)))
  h = hashlib.sha1()
  for _, p in sources + others:
    h.update(p.encode() + b'\0' + hashlib.sha1(_read(p)).digest())
  out = os.path.join(BUILD, 'java-' + h.hexdigest()[:16])
  if os.path.isdir(out):
    os.utime(out)
    return out
  os.makedirs(BUILD, exist_ok=True)
  tmp = tempfile.mkdtemp(dir=BUILD, prefix='tmp-java-')
  r = subprocess.run(['javac', '-nowarn', '-encoding', 'UTF-8', '-d', tmp] + [p for _, p in sources], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
  if r.returncode:
    shutil.rmtree(tmp)
    raise RuntimeError('the Java sources do not compile:\n' + r.stdout.decode('utf-8', 'replace')[:4000])
  for top, p in others:
    t = os.path.join(tmp, os.path.relpath(p, top))
    os.makedirs(os.path.dirname(t), exist_ok=True)
    shutil.copyfile(p, t)
  for n in os.listdir(BUILD):
    if n.startswith('java-') and _stale(n):
      shutil.rmtree(os.path.join(BUILD, n), ignore_errors=True)
  try:
    os.rename(tmp, out)
  except OSError:       # somebody else was faster
    shutil.rmtree(tmp, ignore_errors=True)
  return out


def setup_java():
  _jdir[:] = [java_build()]


def java_driver():
  if not _jdriver:
    _jdriver.append(Driver(['java', '-Xmx1200m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-Dfile.encoding=ISO-8859-1', '-Djava.security.egd=file:/dev/./urandom',
                            '-cp', _jdir[0], 'Driver'], {'LC_ALL': 'C.UTF-8'}))
  return _jdriver[0]


def java_drop():
  if _jdriver:
    _jdriver.pop().close()


class Java(Cpp):
  """The Java library: whatever leaves it but a KeyczarException is a violation."""
  name = 'Java'

  def __init__(self, mon, watch=True):
    self.mon, self.watch = mon, watch
    self.d = java_driver()

  def raw(self, op, *args):
    try:
      r = self.d.call(op, *args)
    except Died as e:
      java_drop()
      self.mon.violate('Java: the process ended in %s' % op, report=e.report[-6000:], op=op, args=[_show(a) for a in args])
    except BaseException:
      java_drop()
      raise
    self.mon.event('java:' + op)
    if r[0] == 'exc' and self.watch:
      self.mon.violate('Java: %s: %s' % (op, r[1][:150]), op=op, args=[_show(a) for a in args], report=self.d.report()[-3000:])
    return r

  def par(self, threads, lines):
    """The replies to requests (op, args...) executed at once in so many threads."""
    enc = []
    for op, *args in lines:
      s = op
      for a in args:
        a = a.encode() if isinstance(a, str) else b'%d' % a if isinstance(a, int) else a
        s += ' ' + (a.hex() or '-')
      enc.append(s)
    r = self.raw('par', threads, *enc)
    out = []
    for (op, *_), x in zip(lines, r[1:]):
      p = unhex(x).decode('latin-1').split(' ')
      if p[0] == 'exc':
        out.append(('exc', ' '.join(p[1:])))
      elif p[0] == 'no':
        out.append(None)
      elif op == 'open':
        out.append(int(p[1]))
      else:
        out.append(unhex(p[1]) if len(p) > 1 else True)
    return out

  def tool(self, *argv):
    """The text that the tool printed."""
    return unhex(self.raw('tool', *argv)[1]).decode('utf-8', 'replace')

  def done(self, leaks=True):
    self.raw('closeall')
    self.d.clear()


class Renamed(object):
  """A monitor for checks written for C++, used for another language."""

  def __init__(self, mon, name):
    self._mon, self._name = mon, name

  def __getattr__(self, a):
    return getattr(self._mon, a)

  def _text(self, msg):
    msg = msg() if callable(msg) else msg
    return self._name + msg[3:] if msg.startswith('C++') else msg

  def check(self, cond, msg, **detail):
    return self._mon.check(cond, lambda: self._text(msg), **detail)

  def violate(self, msg, **detail):
    return self._mon.violate(self._text(msg), **detail)


_lib = [Cpp, drop]


def use_java():
  from . import ref
  _lib[:] = [Java, java_drop]
  ref.AesK.ID_LENGTH = 16       # issue 105: Java's identifiers of AES keys do not depend on their length


def is_java():
  return _lib[0] is Java


def lib(mon):
  return _lib[0](mon)


def drop_lib():
  _lib[1]()
