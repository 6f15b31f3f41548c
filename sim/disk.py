"""
A simulated disk under the release tool: every system call the tool makes on
files of its directory goes through here.

The files live in a scratch directory, so that all of Python's file layers run
for real; builtins.open is Python's own pure Python implementation (_pyio), so
that each of its calls ends in an os function, and those are replaced by
wrappers which count, log, fail or cut short.  A crash ends the process
without any clean-up.  What a power failure leaves is rebuilt from the log.
"""
import builtins
import errno
import io
import os
import stat
from fcntl import fcntl as _flags, F_GETFL as _GETFL

import _pyio

REAL = {n: getattr(os, n) for n in (
    'open', 'write', 'pwrite', 'writev', 'read', 'close', 'fsync', 'fdatasync',
    'sync', 'truncate', 'ftruncate', 'rename', 'replace', 'link', 'symlink',
    'unlink', 'remove', 'mkdir', 'rmdir', 'chmod', 'fchmod', 'utime',
    'sendfile', 'copy_file_range', 'posix_fallocate', 'lseek') if hasattr(
        os, n)}
FAULT_ERRNO = {'open': ('EACCES', 'ENOSPC', 'EMFILE', 'EIO', 'EROFS'),
               'write': ('ENOSPC', 'EIO', 'EDQUOT', 'EFBIG'),
               'fsync': ('EIO', 'ENOSPC'), 'fdatasync': ('EIO', 'ENOSPC'),
               'close': ('EIO', 'ENOSPC'), 'rename': ('EACCES', 'ENOSPC',
                                                     'EIO'),
               'replace': ('EACCES', 'ENOSPC', 'EIO'),
               'chmod': ('EPERM', 'EIO'), 'fchmod': ('EPERM', 'EIO'),
               'truncate': ('EIO',), 'ftruncate': ('EIO',),
               'unlink': ('EACCES', 'EIO'), 'remove': ('EACCES', 'EIO'),
               'read': ('EIO',)}
CRASH = 77


class Disk:
    """
    plan: {"crash": [n, fraction]} end the process in call n, a write being
    carried out in part; {"faults": {n: ["errno", which] or
    ["short", fraction]}}; calls are numbered from 1, or named: "write:2".
    """

    def __init__(self, root, plan, crash, check):
        self.root = os.path.realpath(root) + os.sep
        self.crash_at, self.crash_part = plan.get('crash') or (None, 0)
        self.faults = dict(plan.get('faults', {}))
        self.kinds = {}
        self.crash = crash              # called to end the process
        self.check = check              # called after every change
        self.n = 0
        self.log = []                   # [call, ...] what changed, in order
        self.calls = []                 # names of all calls
        self.fired = {}
        self.fds = {}                   # fd -> inode number
        self.ids = {}                   # inode -> number never used again
        self.next_id = 0

    # ---------------------------------------------------------- the seam
    def install(self):
        for n in REAL:
            setattr(os, n, self.wrap(n))

        builtins.open = io.open = _pyio.open
        io.FileIO, io.TextIOWrapper = _pyio.FileIO, _pyio.TextIOWrapper
        io.BufferedWriter, io.BufferedReader = (_pyio.BufferedWriter,
                                                _pyio.BufferedReader)
        io.StringIO = _pyio.StringIO
        import shutil
        import tempfile
        tempfile._io = io
        shutil._USE_CP_SENDFILE = False
        for k in ('_USE_CP_COPY_FILE_RANGE', '_HAS_FCOPYFILE'):
            if hasattr(shutil, k):
                setattr(shutil, k, False)

    def inside(self, p):
        if not isinstance(p, (str, bytes, os.PathLike)):
            return False
        p = os.fsdecode(p)
        return os.path.join(os.path.realpath(os.path.dirname(p) or '.'),
                            os.path.basename(p)).startswith(self.root)

    def name(self, p):
        p = os.fsdecode(p)
        return os.path.join(os.path.realpath(os.path.dirname(p) or '.'),
                            os.path.basename(p))[len(self.root):]

    def point(self, name):
        """One system call: crash here, or fail?  -> fault or None"""
        self.n += 1
        self.calls.append(name)
        k = self.kinds[name] = self.kinds.get(name, 0) + 1
        self.here = (self.n, f'{name}:{k}')

        if self.crash_at in self.here and name != 'write':
            self.end()

        f = self.faults.get(str(self.n)) or self.faults.get(self.here[1])

        if f is None:
            return None

        if f[0] == 'errno':
            which = FAULT_ERRNO.get(name, ('EIO',))
            which = which[f[1] % len(which)]
            self.count(f'{name}-{which}')
            e = getattr(errno, which)
            raise OSError(e, os.strerror(e))

        return f

    def count(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1

    def end(self):
        self.count('crash')
        self.crash(self)

    def ino(self, fd):
        return self.known(os.fstat(fd).st_ino)

    def known(self, ino, new=False):
        if new or ino not in self.ids:
            self.next_id += 1
            self.ids[ino] = self.next_id
        return self.ids[ino]

    def wrap(self, name):
        real = REAL[name]
        d = self

        def done(*entry):
            d.log.append(list(entry))
            d.check(d)

        if name == 'open':
            def call(path, flags, mode=0o777, *, dir_fd=None):
                if dir_fd is not None or not d.inside(path):
                    return real(path, flags, mode, dir_fd=dir_fd)
                d.point('open')
                p = os.fsdecode(path)
                new = not os.path.lexists(p)
                fd = real(path, flags, mode)
                if new:
                    d.known(os.fstat(fd).st_ino, True)
                d.fds[fd] = d.ino(fd)
                if new:
                    done('create', d.name(p), d.ino(fd),
                         os.fstat(fd).st_mode & 0o7777)
                elif flags & os.O_TRUNC:
                    done('truncate', d.ino(fd), 0)
                return fd
        elif name == 'write':
            def call(fd, data):
                if fd not in d.fds:
                    return real(fd, data)
                f = d.point('write')
                data = bytes(data)
                if f is not None and f[0] == 'short' and len(data) > 1:
                    d.count('short-write')
                    data = data[:max(1, int(len(data) * f[1]))]
                if d.crash_at in d.here:
                    data = data[:int(len(data) * d.crash_part)]
                if _flags(fd, _GETFL) & os.O_APPEND:
                    off = os.fstat(fd).st_size
                else:
                    off = REAL['lseek'](fd, 0, os.SEEK_CUR)
                n = real(fd, data)
                done('write', d.ino(fd), off, data[:n].hex())
                if d.crash_at in d.here:
                    d.end()
                return n
        elif name in ('read', 'close'):
            def call(fd, *a):
                if fd not in d.fds:
                    return real(fd, *a)
                try:
                    d.point(name)
                finally:
                    if name == 'close':
                        d.fds.pop(fd, None)
                        real(fd)
                return real(fd, *a) if name == 'read' else None
        elif name in ('fsync', 'fdatasync'):
            def call(fd):
                n = fd if isinstance(fd, int) else fd.fileno()
                if n not in d.fds:
                    return real(fd)
                d.point(name)
                done('syncdir' if stat.S_ISDIR(os.fstat(n).st_mode) else
                     'fsync', d.ino(n))
        elif name in ('rename', 'replace'):
            def call(src, dst, **k):
                if not (d.inside(src) or d.inside(dst)):
                    return real(src, dst, **k)
                d.point(name)
                real(src, dst, **k)
                done('rename', d.name(src), d.name(dst))
        elif name == 'link':
            def call(src, dst, **k):
                d.point(name)
                real(src, dst, **k)
                done('link', d.name(src), d.name(dst))
        elif name in ('unlink', 'remove'):
            def call(path, *, dir_fd=None):
                if dir_fd is not None or not d.inside(path):
                    return real(path, dir_fd=dir_fd)
                d.point(name)
                real(path)
                done('unlink', d.name(path))
        elif name in ('chmod', 'fchmod'):
            def call(path, mode, **k):
                if isinstance(path, int):
                    if path not in d.fds:
                        return real(path, mode, **k)
                elif not d.inside(path):
                    return real(path, mode, **k)
                d.point(name)
                real(path, mode, **k)
                st = os.stat(path)
                done('chmod', d.known(st.st_ino), mode & 0o7777)
        elif name in ('truncate', 'ftruncate'):
            def call(path, size):
                if isinstance(path, int):
                    if path not in d.fds:
                        return real(path, size)
                elif not d.inside(path):
                    return real(path, size)
                d.point(name)
                real(path, size)
                done('truncate', d.known(os.stat(path).st_ino), size)
        elif name in ('mkdir', 'rmdir'):
            def call(path, *a, **k):
                if not d.inside(path):
                    return real(path, *a, **k)
                d.point(name)
                real(path, *a, **k)
                done(name, d.name(path))
        elif name in ('sendfile', 'copy_file_range', 'writev', 'pwrite'):
            def call(*a, **k):
                raise OSError(errno.ENOSYS, 'not on this simulated disk')
        else:
            return real

        call.__name__ = name
        return call


def replay_power(initial, log, rng):
    """
    What a power failure leaves: initial is {name: [inode, hex, mode]}.

    Changes of the directory and of modes are kept in order up to a seeded
    point; the data of each file up to its last fsync is kept, later data up
    to a seeded point or not at all, possibly with its length but not its
    content.
    -> {name: (bytes, mode)}
    """
    data, mode = {}, {}
    names = {}

    for name, (ino, content, m) in initial.items():
        names[name] = ino
        data[ino] = bytearray.fromhex(content)
        mode[ino] = m

    meta = [i for i, e in enumerate(log) if e[0] in (
        'create', 'rename', 'link', 'unlink', 'chmod', 'mkdir', 'rmdir')]
    least = len([i for i in meta if any(
        e[0] == 'syncdir' for e in log[i:])])
    keep = rng.choice((least, len(meta), len(meta),
                       rng.randint(least, len(meta))))
    kept = set(meta[:keep])

    # data: per inode, position in the log up to which it is durable
    synced, last = {}, {}

    for i, e in enumerate(log):
        if e[0] == 'fsync':
            synced[e[1]] = i
        elif e[0] in ('write', 'truncate'):
            last.setdefault(e[1], []).append(i)

    upto, hole = {}, {}

    for ino, where in last.items():
        s = synced.get(ino, -1)
        later = [i for i in where if i > s]
        k = rng.choice((0, 0, len(later), rng.randint(0, len(later))))
        upto[ino] = later[k - 1] if k else s
        # the next write: part of it, or its length only
        if k < len(later):
            hole[later[k]] = rng.choice(('none', 'part', 'zeros'))

    for i, e in enumerate(log):
        k = e[0]

        if k in ('write', 'truncate'):
            ino = e[1]
            d = data.setdefault(ino, bytearray())
            if i <= upto[ino]:
                part = None
            elif hole.get(i, 'none') == 'none':
                continue
            else:
                part = hole[i]
            if k == 'truncate':
                if len(d) > e[2]:
                    del d[e[2]:]
                else:
                    d.extend(b'\0' * (e[2] - len(d)))
            else:
                b = bytes.fromhex(e[3])
                if part == 'part':
                    b = b[:rng.randint(0, len(b))]
                elif part == 'zeros':
                    b = b'\0' * len(b)
                if len(d) < e[2]:
                    d.extend(b'\0' * (e[2] - len(d)))
                d[e[2]:e[2] + len(b)] = b
        elif i not in kept:
            continue
        elif k == 'create':
            names[e[1]] = e[2]
            data.setdefault(e[2], bytearray())
            mode[e[2]] = e[3]
        elif k == 'rename':
            if e[1] in names:
                names[e[2]] = names.pop(e[1])
        elif k == 'link':
            if e[1] in names:
                names[e[2]] = names[e[1]]
        elif k == 'unlink':
            names.pop(e[1], None)
        elif k == 'chmod':
            mode[e[1]] = e[2]

    return {n: (bytes(data.get(i, b'')), mode.get(i, 0o644))
            for n, i in names.items()}
