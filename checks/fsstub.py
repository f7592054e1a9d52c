"""A file system that answers what it is told and records what it is asked (stand-ins for os.stat, open, ...)."""
import io
import os
import stat

CUR = []
BI = __builtins__ if isinstance(__builtins__, dict) else vars(__builtins__)


def through(orig, name):
    def f(*a, **kw):
        if CUR and not CUR[-1].off and (CUR[-1].only is None or a and isinstance(a[0], str) and a[0].startswith(CUR[-1].only)):
            return getattr(CUR[-1], name)(*a, **kw)
        return orig(*a, **kw)
    return f


for attr in ('stat', 'lstat', 'access', 'open', 'fstat', 'scandir', 'listdir', 'readlink', 'getcwd', 'sendfile'):
    setattr(os, attr, through(getattr(os, attr), attr if attr != 'open' else 'os_open'))
BI['open'] = through(BI['open'], 'open')


class Stat:
    def __init__(self, mode, size, mtime):
        self.st_mode, self.st_size, self.st_mtime = mode, size, mtime
        self.st_mtime_ns = int(mtime * 1000000000)
        self.st_ino = self.st_dev = 1
        self.st_nlink = 1
        self.st_uid = self.st_gid = 0
        self.st_ctime = self.st_atime = mtime


class File:
    """a binary file opened for reading"""
    def __init__(self, fs, name):
        self.fs, self.name, self.pos, self.closed = fs, name, 0, False

    def read(self, n=-1):
        self.fs.alive(self)
        d = self.fs.data
        if n is None or n < 0:
            r = d[self.pos:]
        else:
            left = len(d) - self.pos
            if left < 0:
                left = 0
            r = d[self.pos:self.pos + (n if n < left else left)]
        self.pos += len(r)
        self.fs.reads.append(len(r))
        return r

    def seek(self, n, whence=0):
        self.fs.alive(self)
        self.pos = n if whence == 0 else self.pos + n if whence == 1 else len(self.fs.data) + n
        return self.pos

    def tell(self):
        return self.pos

    def fileno(self):
        return 99

    def readable(self):
        return True
    seekable = readable

    def close(self):
        self.closed = True
        self.fs.closes += 1

    def __iter__(self):
        while True:
            r = self.read(8192)
            if not len(r):
                return
            yield r

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def where(cwd, path):
    """segments of the location of a path, dots resolved"""
    if path[:1] != '/':
        path = cwd + '/' + path
    out = []
    for s in path.split('/'):
        if s == '' or s == '.':
            continue
        if s == '..':
            del out[-1:]
        else:
            out.append(s)
    return out


class Fs:
    """kind: 'file', 'missing', 'dir', 'secret' (not readable), 'fifo', 'decoys' (files everywhere but in the root)"""
    def __init__(self, cx, kind='file', data=b'data', mtime=1000000000, cwd='/work/dir', root=None):
        self.cx, self.sort, self.data, self.mtime, self.cwd = cx, kind, data, mtime, cwd
        self.root = None if root is None else where(cwd, root)
        self.opened = []
        self.asked = []
        self.reads = []
        self.closes = 0
        self.off = 0
        self.only = None       # a prefix: what lies elsewhere is the real file system

    def kind(self, path):
        """the root and what it lies in are directories, everything else is what the case says"""
        if self.root is not None:
            at = where(self.cwd, path)
            if len(at) <= len(self.root) and at == self.root[:len(at)]:
                return 'dir'
            if self.sort == 'decoys':
                return 'missing' if at[:len(self.root)] == self.root else 'file'
        return self.sort

    def alive(self, f):
        self.cx.check(not f.closed, 'a closed file is read')

    def stat(self, path, *a, **kw):
        if isinstance(path, int):
            return self.fstat(path)
        self.asked.append(path)
        if '\0' in path:
            raise ValueError('embedded null byte')
        kind = self.kind(path)
        if kind == 'missing':
            raise FileNotFoundError(2, 'No such file or directory')
        mode = {'dir': stat.S_IFDIR | 0o755, 'fifo': stat.S_IFIFO | 0o644, 'secret': stat.S_IFREG}.get(kind, stat.S_IFREG | 0o644)
        return Stat(mode, len(self.data), self.mtime)
    lstat = stat

    def fstat(self, fd):
        return Stat(stat.S_IFREG | 0o644, len(self.data), self.mtime)

    def access(self, path, mode, **kw):
        self.asked.append(path)
        if '\0' in path:
            raise ValueError('embedded null byte')
        return self.kind(path) in ('file', 'dir', 'fifo')

    def getcwd(self):
        return self.cwd

    def open(self, path, mode='r', *a, **kw):
        self.opened.append(path)
        if '\0' in path:
            raise ValueError('embedded null byte')
        kind = self.kind(path)
        if kind == 'missing':
            raise FileNotFoundError(2, 'No such file or directory')
        if kind == 'secret':
            raise PermissionError(13, 'Permission denied')
        if kind == 'dir':
            raise IsADirectoryError(21, 'Is a directory')
        self.cx.check('b' in mode and 'w' not in mode and 'a' not in mode and '+' not in mode and 'x' not in mode, 'a file is not opened for reading bytes')
        return File(self, path)

    def os_open(self, path, *a, **kw):
        self.opened.append(path)
        raise OSError('os.open is not modelled')

    def listdir(self, *a):
        raise OSError('no directories here')
    scandir = readlink = sendfile = listdir
