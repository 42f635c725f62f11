# -*- coding: utf-8 -*-
"""
The simulated file system.

Everything below MOUNT (and every relative path) lives in memory; builtins.open,
io.open and the os functions are patched while a run is active.  What user space
has written to a file with the write call is durable, what sits in a buffer is
not: a crash stops the process at an I/O operation and only durable state stays.
Every operation is numbered, logged, may be made to fail by the fault plan, and
is a point where the thread scheduler may switch.
"""
from __future__ import absolute_import, division, print_function

import errno
import io
import os
import stat as _stat
import sys

from prng import Rng, mix

PY3 = sys.version_info[0] >= 3
if PY3:
    import builtins as _builtins
    text_types = (str,)
else:
    import __builtin__ as _builtins
    text_types = (str, unicode)

MOUNT = '/sim'
CWD = '/sim/cwd'

WRITE_OPS = ('write', 'mkdir', 'create', 'truncate', 'rename', 'remove', 'rmdir')


class SimCrash(BaseException):
    """The simulated process died."""


def _err(num, path=None):
    if PY3:
        return OSError(num, os.strerror(num), path)
    return OSError(num, os.strerror(num))


def _ioerr(num, path=None):
    if PY3:
        return OSError(num, os.strerror(num), path)
    e = IOError(num, os.strerror(num))
    e.filename = path
    return e


class Inode(object):
    __slots__ = ('data', 'ino')

    def __init__(self, data=b'', ino=0):
        self.data = bytearray(data)
        self.ino = ino


class SimFS(object):
    def __init__(self, dirseed=0, bufsize=8192, shortreads=0):
        self.files = {}
        self.dirs = set(['/', MOUNT, CWD])
        self.cwd = CWD
        self.dirseed = dirseed
        self.bufsize = bufsize
        self.shortreads = shortreads    # 0: never; n: reads return at most n bytes
        self.shortwrites = 0
        self.next_ino = 10
        self.next_fd = 1000000
        self.fds = {}
        self.keep = []          # every file object, so that the collector closes none
        self.handles = []       # every open ever: Handle records
        self.call = None        # id of the current call of the system under test
        self.ncall = 0          # operations in that call
        self.kinds = {}         # (call, kind of operation) -> how many
        self.faults = {}        # (call, n) -> fault
        self.ops = []           # log: (call, n, kind, path, extra)
        self.fired = {}         # fault kind -> times
        self.crashed = False
        self.dead = False
        self.outside = []       # attempts to change the real file system
        self.sched = None
        self.lenient = True
        self.nops = 0

    # ---- set up by the harness, never faulted -----------------------------
    def put(self, path, data):
        self.mkdirs(os.path.dirname(path))
        self.next_ino += 1
        self.files[path] = Inode(data, self.next_ino)

    def get(self, path):
        n = self.files.get(path)
        return None if n is None else bytes(n.data)

    def mkdirs(self, path):
        while path not in self.dirs:
            self.dirs.add(path)
            path = os.path.dirname(path)

    def snapshot(self):
        return dict((p, bytes(n.data)) for p, n in self.files.items())

    def begin(self, call):
        """A call of the system under test starts; a thread may have its own."""
        self.call = call
        self.ncall = 0

    def end(self):
        self.call = None

    def leaked(self, call=None):
        return [h for h in self.handles if not h.closed and (call is None or h.call == call)]

    def restart(self):
        """What a new process finds: durable state, no open file, no fault."""
        self.crashed = False
        self.cwd = CWD
        self.faults = {}
        for h in self.handles:
            h.dead = True
        self.fds = {}

    # ---- the operation point -----------------------------------------------
    def op(self, kind, path, handle=None, size=0):
        """Returns the fault to apply, or None."""
        if self.dead:
            return None
        if self.crashed or (handle is not None and handle.dead):
            raise SimCrash()
        if self.sched is not None:
            self.sched.point('io:' + kind)
        n = self.ncall
        self.ncall += 1
        self.nops += 1
        self.ops.append((self.call, n, kind, path, size))
        f = self.faults.get((self.call, n))
        if f is None:
            # or by the how-manieth operation of its kind
            c = (self.call, kind)
            m = self.kinds.get(c, 0)
            self.kinds[c] = m + 1
            f = self.faults.get((self.call, kind, m))
        if f is None:
            return None
        k = f['kind']
        self.fired[k] = self.fired.get(k, 0) + 1
        if k == 'crash':
            self.crashed = True
            raise SimCrash()
        if k == 'interrupt':
            raise KeyboardInterrupt()
        if k == 'nomem':
            raise MemoryError()
        return f

    def fail(self, f, kind, path):
        """Raise what fault f means for an operation that cannot half succeed."""
        k = f['kind']
        num = {'enospc': errno.ENOSPC, 'eio': errno.EIO, 'emfile': errno.EMFILE,
               'eacces': errno.EACCES, 'erofs': errno.EROFS, 'enoent': errno.ENOENT,
               'eexist': errno.EEXIST}.get(k)
        if num is None:
            return
        if kind in ('open', 'create', 'read', 'write', 'close', 'flush', 'truncate'):
            raise _ioerr(num, path)
        raise _err(num, path)

    # ---- paths ---------------------------------------------------------------
    def norm(self, path):
        if PY3:
            path = os.fspath(path)
            if isinstance(path, bytes):
                path = os.fsdecode(path)
        if not path.startswith('/'):
            path = self.cwd + '/' + path
        path = os.path.normpath(path)
        if path.startswith('//'):
            path = path[1:]
        return str(path) if PY3 else path

    def mine(self, path):
        if isinstance(path, int):
            return path in self.fds or path >= 1000000
        try:
            if PY3:
                path = os.fspath(path)
                if isinstance(path, bytes):
                    path = os.fsdecode(path)
            if not path.startswith('/'):
                return True
            return path == MOUNT or path.startswith(MOUNT + '/')
        except Exception:
            return False

    def order(self, path, names):
        names = sorted(names)
        return Rng(self.dirseed, path, *names).shuffled(names)

    def names(self, path):
        pre = path.rstrip('/') + '/'
        out = set()
        for p in list(self.files) + list(self.dirs):
            if p.startswith(pre) and p != path:
                out.add(p[len(pre):].split('/')[0])
        return out

    # ---- os level -------------------------------------------------------------
    def stat(self, path, follow_symlinks=True, **kw):
        if isinstance(path, int):
            h = self.fds.get(path)
            if h is None:
                raise _err(errno.EBADF)
            return self._stat(h.path, h.inode)
        p = self.norm(path)
        f = self.op('stat', p)
        if f:
            self.fail(f, 'stat', p)
        return self._stat(p)

    def _stat(self, p, inode=None):
        if inode is None:
            inode = self.files.get(p)
        if inode is not None:
            return os.stat_result((_stat.S_IFREG | 0o644, inode.ino, 1, 1, 0, 0, len(inode.data), 0, 0, 0))
        if p in self.dirs:
            return os.stat_result((_stat.S_IFDIR | 0o755, mix(p) & 0xffffff, 1, 2, 0, 0, 0, 0, 0, 0))
        raise _err(errno.ENOENT, p)

    def access(self, path, mode, **kw):
        try:
            self.stat(path)
            return True
        except OSError:
            return False

    def listdir(self, path='.'):
        p = self.norm(path)
        f = self.op('listdir', p)
        if f:
            self.fail(f, 'listdir', p)
        if p not in self.dirs:
            raise _err(errno.ENOENT if p not in self.files else errno.ENOTDIR, p)
        return self.order(p, self.names(p))

    def scandir(self, path='.'):
        return ScanDir(self, path, self.listdir(path))

    def mkdir(self, path, mode=0o777, **kw):
        p = self.norm(path)
        f = self.op('mkdir', p)
        if f and f['kind'] == 'race':
            self.dirs.add(p)        # somebody else was faster
        elif f:
            self.fail(f, 'mkdir', p)
        if p in self.dirs or p in self.files:
            raise _err(errno.EEXIST, p)
        if os.path.dirname(p) not in self.dirs:
            raise _err(errno.ENOENT, p)
        self.dirs.add(p)

    def chdir(self, path, **kw):
        p = self.norm(path)
        if p not in self.dirs:
            raise _err(errno.ENOENT if p not in self.files else errno.ENOTDIR, p)
        self.cwd = p

    def rmdir(self, path, **kw):
        p = self.norm(path)
        f = self.op('rmdir', p)
        if f:
            self.fail(f, 'rmdir', p)
        if p not in self.dirs:
            raise _err(errno.ENOENT, p)
        if self.names(p):
            raise _err(errno.ENOTEMPTY, p)
        self.dirs.remove(p)

    def remove(self, path, **kw):
        p = self.norm(path)
        f = self.op('remove', p)
        if f:
            self.fail(f, 'remove', p)
        if p not in self.files:
            raise _err(errno.ENOENT if p not in self.dirs else errno.EISDIR, p)
        del self.files[p]

    def rename(self, a, b, **kw):
        a, b = self.norm(a), self.norm(b)
        f = self.op('rename', b)
        if f:
            self.fail(f, 'rename', b)
        if a in self.files:
            if b in self.dirs:
                raise _err(errno.EISDIR, b)
            if os.path.dirname(b) not in self.dirs:
                raise _err(errno.ENOENT, b)
            self.files[b] = self.files.pop(a)
        elif a in self.dirs:
            for k in list(self.files):
                if k.startswith(a + '/'):
                    self.files[b + k[len(a):]] = self.files.pop(k)
            for d in list(self.dirs):
                if d == a or d.startswith(a + '/'):
                    self.dirs.remove(d)
                    self.dirs.add(b + d[len(a):])
        else:
            raise _err(errno.ENOENT, a)

    def nothing(self, *a, **k):
        return None

    # ---- opening ---------------------------------------------------------------
    def openraw(self, path, read, write, create, excl, trunc, append):
        p = self.norm(path)
        exists = p in self.files
        f = self.op('create' if write and not exists else 'open', p)
        if f:
            self.fail(f, 'open', p)
        if p in self.dirs:
            raise _ioerr(errno.EISDIR, p)
        if not exists:
            if not create:
                raise _ioerr(errno.ENOENT, p)
            if os.path.dirname(p) not in self.dirs:
                raise _ioerr(errno.ENOENT, p)
            self.next_ino += 1
            self.files[p] = Inode(b'', self.next_ino)
        elif excl:
            raise _ioerr(errno.EEXIST, p)
        inode = self.files[p]
        if trunc:
            inode.data = bytearray()
        fd = self.next_fd
        self.next_fd += 1
        h = Handle(self, p, inode, read, write, append, fd)
        self.fds[fd] = h
        self.handles.append(h)
        return h

    def osopen(self, path, flags, mode=0o777, **kw):
        acc = flags & 3
        h = self.openraw(path, acc in (os.O_RDONLY, os.O_RDWR), acc in (os.O_WRONLY, os.O_RDWR),
                         bool(flags & os.O_CREAT), bool(flags & os.O_EXCL) and bool(flags & os.O_CREAT),
                         bool(flags & os.O_TRUNC), bool(flags & os.O_APPEND))
        return h.fd

    def fdhandle(self, fd):
        h = self.fds.get(fd)
        if h is None or h.closed:
            raise _err(errno.EBADF)
        return h


class ScanDir(object):
    def __init__(self, fs, path, names):
        self.it = iter([DirEntry(fs, path, n) for n in names])

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)
    next = __next__

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class DirEntry(object):
    def __init__(self, fs, path, name):
        self.fs = fs
        self.name = name
        self.path = os.path.join(path, name)

    def _p(self):
        return self.fs.norm(self.path)

    def is_dir(self, follow_symlinks=True):
        return self._p() in self.fs.dirs

    def is_file(self, follow_symlinks=True):
        return self._p() in self.fs.files

    def is_symlink(self):
        return False

    def inode(self):
        return self.fs._stat(self._p()).st_ino

    def stat(self, follow_symlinks=True):
        return self.fs._stat(self._p())

    def __fspath__(self):
        return self.path


class Handle(object):
    """An open file description."""

    def __init__(self, fs, path, inode, read, write, append, fd):
        self.fs, self.path, self.inode = fs, path, inode
        self.read_, self.write_, self.append = read, write, append
        self.fd = fd
        self.pos = 0
        self.closed = False
        self.dead = False
        self.call = fs.call

    def read(self, n):
        fs = self.fs
        f = fs.op('read', self.path, self, n)
        if f and f['kind'] == 'short':
            n = max(1, min(n, f.get('arg', 1)))
        elif f:
            fs.fail(f, 'read', self.path)
        if fs.shortreads and n > fs.shortreads:
            n = fs.shortreads
        d = bytes(self.inode.data[self.pos:self.pos + n])
        self.pos += len(d)
        return d

    def write(self, data):
        fs = self.fs
        data = bytes(data)
        f = fs.faults.get((fs.call, fs.ncall)) if not fs.dead else None
        if f and f['kind'] in ('torn', 'torncrash'):
            # some of it arrives, then the disk fails or the process dies
            k = len(data) * (f.get('arg', 0) % 100) // 100
            self._put(data[:k])
        f = fs.op('write', self.path, self, len(data))
        if f:
            k = f['kind']
            if k == 'torn':
                raise _ioerr(errno.ENOSPC, self.path)
            if k == 'torncrash':
                fs.crashed = True
                raise SimCrash()
            if k == 'short':
                data = data[:max(1, min(len(data), f.get('arg', 1)))]
            else:
                fs.fail(f, 'write', self.path)
        if fs.dead:
            return len(data)
        if fs.shortwrites:
            data = data[:max(1, fs.shortwrites)]
        self._put(data)
        return len(data)

    def _put(self, data):
        d = self.inode.data
        if self.append:
            self.pos = len(d)
        if self.pos > len(d):
            d.extend(b'\0' * (self.pos - len(d)))
        d[self.pos:self.pos + len(data)] = data
        self.pos += len(data)

    def truncate(self, n):
        f = self.fs.op('truncate', self.path, self, n)
        if f:
            self.fs.fail(f, 'truncate', self.path)
        d = self.inode.data
        if n < len(d):
            del d[n:]
        else:
            d.extend(b'\0' * (n - len(d)))

    def seek(self, off, whence=0):
        if whence == 0:
            self.pos = off
        elif whence == 1:
            self.pos += off
        else:
            self.pos = len(self.inode.data) + off
        return self.pos

    def close(self):
        if self.closed:
            return
        # the descriptor is gone, whatever close reports
        self.closed = True
        self.fs.fds.pop(self.fd, None)
        if self.fs.dead or self.fs.crashed or self.dead:
            return
        f = self.fs.op('close', self.path, self)
        if f:
            self.fs.fail(f, 'close', self.path)


class SimRaw(io.RawIOBase):
    def __init__(self, handle, name, mode):
        self._h = handle
        self.name = name
        self.mode = mode

    def readable(self):
        return self._h.read_

    def writable(self):
        return self._h.write_

    def seekable(self):
        return True

    def readinto(self, b):
        self._check(self._h.read_)
        d = self._h.read(len(b))
        b[:len(d)] = d
        return len(d)

    def readall(self):
        self._check(self._h.read_)
        out = bytearray()
        while True:
            d = self._h.read(65536)
            if not d:
                return bytes(out)
            out += d

    def write(self, b):
        self._check(self._h.write_)
        return self._h.write(bytes(b))

    def _check(self, ok):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if not ok:
            raise io.UnsupportedOperation("not readable/writable")

    def seek(self, off, whence=0):
        return self._h.seek(off, whence)

    def tell(self):
        return self._h.pos

    def truncate(self, size=None):
        if size is None:
            size = self._h.pos
        self._h.truncate(size)
        return size

    def fileno(self):
        return self._h.fd

    def close(self):
        if not self.closed:
            try:
                super(SimRaw, self).close()
            finally:
                self._h.close()

    def isatty(self):
        return False


def _parse(mode):
    m = mode.replace('U', '').replace('b', '').replace('t', '')
    plus = '+' in m
    c = m.replace('+', '')
    if c not in ('r', 'w', 'a', 'x'):
        raise ValueError("invalid mode: %r" % mode)
    read = c == 'r' or plus
    write = c != 'r' or plus
    return read, write, c != 'r', c == 'x', c == 'w', c == 'a'


def io_open(fs, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    read, write, create, excl, trunc, append = _parse(mode)
    binary = 'b' in mode
    if isinstance(file, int):
        h = fs.fdhandle(file)
    elif opener is not None:
        flags = (os.O_RDWR if read and write else os.O_WRONLY if write else os.O_RDONLY)
        flags |= (os.O_CREAT if create else 0) | (os.O_EXCL if excl else 0) | (os.O_TRUNC if trunc else 0) | \
                 (os.O_APPEND if append else 0)
        h = fs.fdhandle(opener(file, flags))
    else:
        h = fs.openraw(file, read, write, create, excl, trunc, append)
    raw = SimRaw(h, file, mode)
    fs.keep.append(raw)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else fs.bufsize
    if read and write:
        buf = io.BufferedRandom(raw, size)
    elif write:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    fs.keep.append(buf)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line_buffering=(buffering == 1))
    try:
        text.mode = mode
    except Exception:
        pass
    fs.keep.append(text)
    return text


class File2(object):
    """The file type of Python 2: its own buffer, in text mode too."""
    softspace = 0
    encoding = None
    errors = None
    newlines = None

    def __init__(self, fs, name, mode='r', buffering=-1):
        read, write, create, excl, trunc, append = _parse(mode)
        self.name, self.mode = name, mode
        self._fs = fs
        self._h = fs.openraw(name, read, write, create, excl, trunc, append)
        self._w = bytearray()
        self._r = b''
        self._size = buffering if buffering > 1 else (1 if buffering == 0 else fs.bufsize)
        self.closed = False
        fs.keep.append(self)

    def _ck(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")

    def _fill(self):
        d = self._h.read(max(self._size, 1))
        self._r += d
        return d

    def read(self, n=-1):
        self._ck()
        if not self._h.read_:
            raise IOError(errno.EBADF, "File not open for reading")
        self.flush()
        if n is None or n < 0:
            while self._fill():
                pass
            n = len(self._r)
        else:
            while len(self._r) < n and self._fill():
                pass
        d, self._r = self._r[:n], self._r[n:]
        return d

    def readline(self, n=-1):
        self._ck()
        while b'\n' not in self._r and self._fill():
            pass
        i = self._r.find(b'\n') + 1 or len(self._r)
        if n is not None and n >= 0:
            i = min(i, n)
        d, self._r = self._r[:i], self._r[i:]
        return d

    def readlines(self, hint=None):
        return list(self)

    xreadlines = __iter__ = lambda self: self

    def next(self):
        l = self.readline()
        if not l:
            raise StopIteration
        return l
    __next__ = next

    def write(self, s):
        self._ck()
        if not self._h.write_:
            raise IOError(errno.EBADF, "File not open for writing")
        if not isinstance(s, (bytes, bytearray)):
            s = s.encode('ascii')
        self._w += s
        if len(self._w) >= self._size:
            self.flush()

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def flush(self):
        self._ck()
        while self._w:
            n = self._h.write(bytes(self._w))
            del self._w[:n]

    def seek(self, off, whence=0):
        self.flush()
        if whence == 1:
            off -= len(self._r)
        self._r = b''
        self._h.seek(off, whence)

    def tell(self):
        self.flush()
        return self._h.pos - len(self._r)

    def truncate(self, size=None):
        self.flush()
        self._h.truncate(self.tell() if size is None else size)

    def fileno(self):
        return self._h.fd

    def isatty(self):
        return False

    def close(self):
        if self.closed:
            return
        try:
            self.flush()
        finally:
            self.closed = True
            self._h.close()

    def __enter__(self):
        self._ck()
        return self

    def __exit__(self, *a):
        self.close()


# ---- the patches ----------------------------------------------------------------
class Patch(object):
    """Installed once per process; does nothing unless a simulation is active."""

    def __init__(self):
        self.fs = None
        self.real = {}

    def install(self):
        real_open = _builtins.open
        real_ioopen = io.open
        self.real['open'] = real_open
        me = self

        def writes(mode):
            return any(c in mode for c in 'wax+')

        def sim_open(file, mode='r', *a, **k):
            fs = me.fs
            if fs is not None:
                if fs.mine(file):
                    if PY3:
                        return io_open(fs, file, mode, *a, **k)
                    return File2(fs, file, mode, *a, **k)
                if writes(mode) and file not in ('/dev/null', os.devnull):
                    fs.outside.append(str(file))
                    raise _ioerr(errno.EACCES, str(file))
            return real_open(file, mode, *a, **k)

        def sim_ioopen(file, mode='r', *a, **k):
            fs = me.fs
            if fs is not None:
                if fs.mine(file):
                    return io_open(fs, file, mode, *a, **k)
                if writes(mode) and file not in ('/dev/null', os.devnull):
                    fs.outside.append(str(file))
                    raise _ioerr(errno.EACCES, str(file))
            return real_ioopen(file, mode, *a, **k)

        _builtins.open = sim_open
        io.open = sim_ioopen
        if not PY3:
            _builtins.file = sim_open

        def wrap(name, meth, change=False, nargs=1):
            real = getattr(os, name, None)
            if real is None:
                return

            def f(*a, **k):
                fs = me.fs
                if fs is not None:
                    p = a[0] if a else '.'
                    if fs.mine(p):
                        return getattr(fs, meth)(*a, **k)
                    if change:
                        fs.outside.append('%s %s' % (name, p))
                        raise _err(errno.EACCES, str(p))
                return real(*a, **k)
            f.__name__ = name
            setattr(os, name, f)

        for n in ('stat', 'lstat'):
            wrap(n, 'stat')
        wrap('access', 'access')
        wrap('listdir', 'listdir')
        wrap('scandir', 'scandir')
        wrap('mkdir', 'mkdir', True)
        wrap('rmdir', 'rmdir', True)
        wrap('chdir', 'chdir', True)
        wrap('remove', 'remove', True)
        wrap('unlink', 'remove', True)
        wrap('rename', 'rename', True)
        wrap('replace', 'rename', True)
        for n in ('chmod', 'utime', 'chown', 'truncate', 'link', 'symlink', 'fsync', 'fdatasync'):
            wrap(n, 'nothing', n not in ('fsync', 'fdatasync'))
        real_osopen = os.open

        def sim_osopen(path, flags, *a, **k):
            fs = me.fs
            if fs is not None:
                if fs.mine(path):
                    return fs.osopen(path, flags, *a, **k)
                if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                    fs.outside.append(str(path))
                    raise _err(errno.EACCES, str(path))
            return real_osopen(path, flags, *a, **k)
        os.open = sim_osopen

        def fdwrap(name, g):
            real = getattr(os, name, None)
            if real is None:
                return

            def f(fd, *a, **k):
                fs = me.fs
                if fs is not None and isinstance(fd, int) and fd >= 1000000:
                    return g(fs, fd, *a, **k)
                return real(fd, *a, **k)
            setattr(os, name, f)

        fdwrap('close', lambda fs, fd: fs.fdhandle(fd).close())
        fdwrap('read', lambda fs, fd, n: fs.fdhandle(fd).read(n))
        fdwrap('write', lambda fs, fd, d: fs.fdhandle(fd).write(d))
        fdwrap('fstat', lambda fs, fd: fs.stat(fd))
        fdwrap('ftruncate', lambda fs, fd, n: fs.fdhandle(fd).truncate(n))
        fdwrap('lseek', lambda fs, fd, o, w=0: fs.fdhandle(fd).seek(o, w))
        fdwrap('fdopen', lambda fs, fd, mode='r', *a, **k: io_open(fs, fd, mode, *a, **k))
        for n in ('getcwd', 'getcwdu'):
            real = getattr(os, n, None)
            if real is not None:
                def f(real=real, n=n):
                    if me.fs is not None:
                        return me.fs.cwd if n == 'getcwd' else me.fs.cwd.decode('ascii')
                    return real()
                setattr(os, n, f)


PATCH = Patch()
