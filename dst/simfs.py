"""In-memory file system behind the `tensorflow.io.gfile` seam.

Paths under ROOT live here. Every operation is a scheduling point and may be
hit by an injected fault. Two storage models:

  posix : a file is visible (and grows) as soon as its first write starts; a
          crash leaves a prefix; rename is atomic.
  object: an object appears (whole) when the writer is closed; rename is
          copy + delete, and a crash may happen between the two.

What a close() or rename() has completed survives a process crash (the process
dies, not the storage).  Paths outside ROOT: reads go to the real gfile,
anything that would change the real file system is refused.
"""
import fnmatch
import io
import os
import posixpath

ROOT = '/simfs'


class Escape(Exception):
  """The code under test tried to modify a path outside of the scratch root."""


class FileStat:

  def __init__(self, length, is_directory=False):
    self.length = length
    self.mtime_nsec = 0
    self.is_directory = is_directory


def norm(path):
  if hasattr(path, '__fspath__'):
    path = path.__fspath__()
  if isinstance(path, bytes):
    path = path.decode()
  return posixpath.normpath(path)


def is_sim(path):
  try:
    p = norm(path)
  except Exception:  # pylint: disable=broad-except
    return False
  return p == ROOT or p.startswith(ROOT + '/')


class SimFS:
  """Durable storage; survives worlds (i.e. restarts)."""

  def __init__(self, mode='posix'):
    self.mode = mode
    self.files = {}       # path -> bytes
    self.dirs = {ROOT}
    self.writers = {}     # path -> list of host ids that ever wrote it
    self.readers = {}     # path -> list of host ids that read it
    self.log = []         # (host, op, path)

  def clone(self):
    other = SimFS(self.mode)
    other.files = dict(self.files)
    other.dirs = set(self.dirs)
    return other

  def put(self, path, data):
    """Harness-level write (no point, no fault)."""
    path = norm(path)
    self.add_dirs(posixpath.dirname(path))
    self.files[path] = bytes(data)

  def add_dirs(self, path):
    path = norm(path)
    while len(path) >= len(ROOT) and path not in self.dirs:
      self.dirs.add(path)
      path = posixpath.dirname(path)

  def names(self, d):
    d = norm(d)
    return sorted(set(
        p[len(d) + 1:].split('/')[0]
        for p in list(self.files) + list(self.dirs) if p.startswith(d + '/')))


def make_errors():
  import tensorflow as tf
  e = tf.errors

  def mk(cls):
    return lambda msg: cls(None, None, msg)

  return {
      'not_found': mk(e.NotFoundError),
      'exists': mk(e.AlreadyExistsError),
      'enospc': mk(e.ResourceExhaustedError),
      'unavailable': mk(e.UnavailableError),
      'perm': mk(e.PermissionDeniedError),
      'precond': mk(e.FailedPreconditionError),
      'eio': mk(e.UnknownError),
      'oserror': lambda msg: OSError(5, msg),
  }


class GfileApi:
  """Implements the functions of `tensorflow.io.gfile` over SimFS.

  get_world() returns the active world (or None), whose `fs_point(op, path)`
  is a scheduling/fault point and returns a fault dict or None.
  """

  def __init__(self, real, get_world):
    self.real = real
    self.get_world = get_world
    self.err = make_errors()

  # -- helpers ---------------------------------------------------------------

  def _w(self):
    w = self.get_world()
    if w is None:
      raise Escape('gfile used on a simulated path outside of a simulation')
    return w

  def _guard(self, path):
    raise Escape(f'refused to modify a path outside of {ROOT}: {path!r}')

  def _pt(self, op, path):
    w = self._w()
    f = w.fs_point(op, path)
    if f is not None and f.get('err'):
      raise self.err[f['err']](f'[injected] {op} {path}')
    return w.fs

  # -- API -------------------------------------------------------------------

  def exists(self, path):
    if not is_sim(path):
      return self.real['exists'](path)
    p = norm(path)
    fs = self._pt('exists', p)
    return p in fs.files or p in fs.dirs

  def isdir(self, path):
    if not is_sim(path):
      return self.real['isdir'](path)
    p = norm(path)
    fs = self._pt('isdir', p)
    return p in fs.dirs

  def makedirs(self, path):
    if not is_sim(path):
      if path == '' and self.get_world() is not None:
        raise self.err['not_found']('makedirs ""')
      self._guard(path)
    p = norm(path)
    fs = self._pt('makedirs', p)
    if p in fs.files:
      raise self.err['precond'](f'{p} is a file')
    fs.add_dirs(p)

  def mkdir(self, path):
    if not is_sim(path):
      self._guard(path)
    p = norm(path)
    fs = self._pt('mkdir', p)
    if p in fs.dirs or p in fs.files:
      raise self.err['exists'](p)
    if posixpath.dirname(p) not in fs.dirs:
      raise self.err['not_found'](p)
    fs.add_dirs(p)

  def remove(self, path):
    if not is_sim(path):
      self._guard(path)
    p = norm(path)
    fs = self._pt('remove', p)
    if p in fs.dirs:
      raise self.err['precond'](f'{p} is a directory')
    if p not in fs.files:
      raise self.err['not_found'](p)
    del fs.files[p]
    fs.log.append((self._w().host_id(), 'remove', p))

  def rmtree(self, path):
    if not is_sim(path):
      self._guard(path)
    p = norm(path)
    fs = self._pt('rmtree', p)
    if p not in fs.dirs:
      raise self.err['not_found'](p)
    for q in [q for q in fs.files if q.startswith(p + '/')]:
      del fs.files[q]
      fs.log.append((self._w().host_id(), 'remove', q))
    for q in [q for q in fs.dirs if q == p or q.startswith(p + '/')]:
      fs.dirs.discard(q)

  def rename(self, src, dst, overwrite=False):
    if not is_sim(src) or not is_sim(dst):
      self._guard(f'{src} -> {dst}')
    s, d = norm(src), norm(dst)
    w = self._w()
    fs = self._pt('rename', d)
    if not overwrite and (d in fs.files or d in fs.dirs):
      raise self.err['exists'](d)
    if s not in fs.files and s not in fs.dirs:
      raise self.err['not_found'](s)
    if posixpath.dirname(d) not in fs.dirs:
      raise self.err['not_found'](d)
    if s in fs.dirs:
      moved = {q: fs.files.pop(q) for q in list(fs.files)
               if q.startswith(s + '/')}
      for q, v in moved.items():
        fs.files[d + q[len(s):]] = v
      mdirs = [q for q in fs.dirs if q == s or q.startswith(s + '/')]
      for q in mdirs:
        fs.dirs.discard(q)
        fs.dirs.add(d + q[len(s):])
      return
    if fs.mode == 'object':
      fs.files[d] = fs.files[s]
      self._note_write(w, fs, d)
      w.fs_point('rename2', d)
      fs.files.pop(s, None)
    else:
      fs.files[d] = fs.files.pop(s)
      self._note_write(w, fs, d)
    fs.log.append((w.host_id(), 'rename', d))
    w.fs_point('renamed', d)

  def copy(self, src, dst, overwrite=False):
    if not is_sim(src) and not is_sim(dst):
      self._guard(f'{src} -> {dst}')
    s, d = norm(src), norm(dst)
    w = self._w()
    fs = self._pt('copy', d)
    if s not in fs.files:
      raise self.err['not_found'](s)
    if not overwrite and d in fs.files:
      raise self.err['exists'](d)
    if fs.mode == 'posix':
      data = fs.files[s]
      fs.files[d] = data[:len(data) // 2]
      w.fs_point('copy2', d)
      fs.files[d] = data
    else:
      fs.files[d] = fs.files[s]
    self._note_write(w, fs, d)

  def _note_write(self, w, fs, path):
    fs.writers.setdefault(path, []).append(w.host_id())

  def glob(self, pattern):
    if isinstance(pattern, (list, tuple)):
      return [x for p in pattern for x in self.glob(p)]
    if not is_sim(pattern):
      return self.real['glob'](pattern)
    w = self._w()
    p = norm(pattern)
    fs = self._pt('glob', p)
    parts = p.split('/')
    out = []
    for q in list(fs.files) + list(fs.dirs):
      qp = q.split('/')
      if len(qp) == len(parts) and all(
          fnmatch.fnmatchcase(a, b) for a, b in zip(qp, parts)):
        out.append(q)
    out.sort()
    w.shuffle(out)
    return out

  def listdir(self, path):
    if not is_sim(path):
      return self.real['listdir'](path)
    p = norm(path)
    fs = self._pt('listdir', p)
    if p not in fs.dirs:
      raise self.err['not_found'](p)
    out = fs.names(p)
    self._w().shuffle(out)
    return out

  def walk(self, top, topdown=True, onerror=None):
    if not is_sim(top):
      yield from self.real['walk'](top, topdown, onerror)
      return
    p = norm(top)
    fs = self._pt('walk', p)
    names = fs.names(p)
    subdirs = [n for n in names if f'{p}/{n}' in fs.dirs]
    files = [n for n in names if f'{p}/{n}' in fs.files]
    if topdown:
      yield (p, subdirs, files)
    for n in subdirs:
      yield from self.walk(f'{p}/{n}', topdown, onerror)
    if not topdown:
      yield (p, subdirs, files)

  def stat(self, path):
    if not is_sim(path):
      return self.real['stat'](path)
    p = norm(path)
    fs = self._pt('stat', p)
    if p in fs.dirs:
      return FileStat(0, True)
    if p not in fs.files:
      raise self.err['not_found'](p)
    return FileStat(len(fs.files[p]))

  def join(self, path, *paths):
    return self.real['join'](path, *paths)

  def GFile(self, name, mode='r', encoding='utf-8'):  # pylint: disable=invalid-name
    if not is_sim(name):
      if any(c in mode for c in 'wa+'):
        self._guard(name)
      return self.real['GFile'](name, mode)
    return SimGFile(self, norm(name), mode)


class SimGFile:
  """File object with the lazy-open, buffered behaviour of tf GFile."""

  def __init__(self, api, path, mode):
    self.api, self.path, self._mode = api, path, mode
    self.binary = 'b' in mode
    self.writable_mode = any(c in mode for c in 'wa+')
    self._opened = False
    self._buf = b''
    self._visible = 0
    self._pos = 0
    self._rdata = None
    self._closed = False

  # -- write side --------------------------------------------------------------

  def _open_for_write(self):
    if self._opened:
      return
    api = self.api
    fs = api._pt('open_w', self.path)
    if posixpath.dirname(self.path) not in fs.dirs:
      raise api.err['not_found'](self.path)
    if self.path in fs.dirs:
      raise api.err['precond'](self.path)
    if 'a' in self._mode:
      self._buf = fs.files.get(self.path, b'')
      self._visible = len(self._buf)
    self._opened = True
    if fs.mode == 'posix' and 'a' not in self._mode:
      fs.files[self.path] = b''
    api._note_write(api._w(), fs, self.path)

  def write(self, data):
    if not self.writable_mode:
      raise self.api.err['perm']('file not open for writing')
    if isinstance(data, str):
      data = data.encode()
    data = bytes(data)
    self._open_for_write()
    api = self.api
    w = api._w()
    self._buf += data
    f = w.fs_point('write', self.path)
    if f is not None:
      self._spill(w.fs, f.get('frac', 50))
      if f.get('err'):
        # The stdio buffer is gone: what is on disk is what was spilled.
        self._buf = self._buf[:self._visible]
        raise api.err[f['err']](f'[injected] write {self.path}')
    # While the write is in flight, a prefix of the data is visible.
    self._spill(w.fs, w.draw_frac())
    w.fs_point('written', self.path)
    return None

  def _spill(self, fs, percent):
    if fs.mode != 'posix':
      return
    n = max(self._visible, len(self._buf) * percent // 100)
    n = min(n, len(self._buf))
    self._visible = n
    fs.files[self.path] = self._buf[:n]

  def flush(self):
    if self._opened:
      fs = self.api._pt('flush', self.path)
      self._spill(fs, 100)

  def close(self):
    if self._closed:
      return
    if self._opened:
      api = self.api
      w = api._w()
      f = w.fs_point('close', self.path)
      self._closed = True
      fs = w.fs
      if f is not None and f.get('err'):
        if fs.mode == 'posix':
          self._spill(fs, f.get('frac', 50))
        raise api.err[f['err']](f'[injected] close {self.path}')
      fs.files[self.path] = self._buf
      self._visible = len(self._buf)
      fs.log.append((w.host_id(), 'write', self.path))
      w.fs_point('closed', self.path)
    self._closed = True

  # -- read side ---------------------------------------------------------------

  def _load(self):
    if self._rdata is None:
      api = self.api
      fs = api._pt('read', self.path)
      if self.path in fs.dirs:
        raise api.err['precond'](self.path)
      if self.path not in fs.files:
        raise api.err['not_found'](self.path)
      self._rdata = fs.files[self.path]
      fs.readers.setdefault(self.path, []).append(api._w().host_id())
    return self._rdata

  def _out(self, b):
    return b if self.binary else b.decode()

  def read(self, n=-1):
    if self.writable_mode and '+' not in self._mode:
      raise self.api.err['perm']('file not open for reading')
    data = self._load()
    if n is None or n < 0:
      out = data[self._pos:]
    else:
      out = data[self._pos:self._pos + n]
    self._pos += len(out)
    return self._out(out)

  def readline(self):
    data = self._load()
    k = data.find(b'\n', self._pos)
    end = len(data) if k < 0 else k + 1
    out = data[self._pos:end]
    self._pos = end
    return self._out(out)

  def readlines(self):
    out = []
    while True:
      l = self.readline()
      if not l:
        return out
      out.append(l)

  def __iter__(self):
    return self

  def __next__(self):
    l = self.readline()
    if not l:
      raise StopIteration
    return l

  def seek(self, offset=None, whence=0, position=None):
    data = self._load()
    offset = position if offset is None else offset
    base = {0: 0, 1: self._pos, 2: len(data)}[whence]
    self._pos = base + offset

  def tell(self):
    return len(self._buf) if self.writable_mode else self._pos

  def size(self):
    return self.api.stat(self.path).length

  def seekable(self):
    return True

  def readable(self):
    return not self.writable_mode

  def writable(self):
    return self.writable_mode

  @property
  def name(self):
    return self.path

  @property
  def mode(self):
    return self._mode

  @property
  def closed(self):
    return self._closed

  def __enter__(self):
    return self

  def __exit__(self, *exc):
    self.close()
