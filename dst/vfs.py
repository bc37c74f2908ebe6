"""A simulated disk. While it is active, everything which cdtools reads or
writes through h5py or torch goes through Python file objects, which keep the
content in real files of a scratch directory, and fail on demand."""
import contextlib
import errno
import io
import os
import h5py
import torch as t

_h5file = h5py.File
_getitem, _contains = h5py.Group.__getitem__, h5py.Group.__contains__
_save, _load = t.save, t.load

ERRORS = {'EIO': errno.EIO, 'ENOSPC': errno.ENOSPC, 'EDQUOT': errno.EDQUOT,
          'ESTALE': errno.ESTALE}


class Disk:
    """plan: list of [operation, n, error, lasting] - the n-th operation of
    this kind fails, and if lasting, so does every later one. The error can
    also be KILL or POWER, which ends the process."""

    def __init__(self, plan=()):
        self.plan = [list(p) for p in plan]
        self.counts = {}
        self.fired = {}
        self.files = []
        self.active = True

    def pass_by(self, op):
        if not self.active:
            return
        n = self.counts[op] = self.counts.get(op, 0) + 1
        for kind, at, err, lasting in self.plan:
            if kind == op and (n == at or lasting and n > at):
                name = 'disk_%s_%s' % (op, err)
                self.fired[name] = self.fired.get(name, 0) + 1
                if err in ('KILL', 'POWER'):
                    # The process ends here (use common.isolated). With a
                    # power failure, what was written last is lost.
                    for f in self.files if err == 'KILL' else []:
                        if not f.inner.closed:
                            f.inner.flush()
                    os._exit(77)
                raise OSError(ERRORS[err], os.strerror(ERRORS[err]))

    def open(self, path, mode):
        self.pass_by('open')
        self.files.append(DiskFile(self, path, mode))
        return self.files[-1]


class DiskFile(io.RawIOBase):
    def __init__(self, disk, path, mode):
        super().__init__()
        self.disk = disk
        self.inner = open(path, {'r': 'rb', 'w': 'w+b', 'r+': 'r+b',
                                 'a': 'r+b' if os.path.exists(path)
                                 else 'w+b'}[mode])
        self.mode_ = mode

    def readable(self):
        return True

    def writable(self):
        return self.mode_ != 'r'

    def seekable(self):
        return True

    def seek(self, offset, whence=0):
        return self.inner.seek(offset, whence)

    def tell(self):
        return self.inner.tell()

    def readinto(self, buf):
        self.disk.pass_by('read')
        return self.inner.readinto(buf)

    def write(self, data):
        data = memoryview(data).cast('B')
        try:
            self.disk.pass_by('write')
        except OSError:
            # a part of it may still have arrived
            self.inner.write(data[:len(data) // 2])
            raise
        return self.inner.write(data)

    def truncate(self, size=None):
        return self.inner.truncate(size)

    def flush(self):
        if not self.inner.closed:
            self.disk.pass_by('flush')
            self.inner.flush()

    def close(self):
        if not self.inner.closed:
            self.inner.close()
        super().close()


@contextlib.contextmanager
def disk(plan=()):
    d = Disk(plan)
    opened = []

    class SimFile(_h5file):
        def __init__(self, name, mode='r', *args, **kwargs):
            if isinstance(name, bytes):
                name = os.fsdecode(name)
            if isinstance(name, (str, os.PathLike)) and not kwargs.get(
                    'driver'):
                if mode in ('w-', 'x'):
                    if os.path.exists(name):
                        raise FileExistsError(name)
                    mode = 'w'
                name = d.open(name, mode)
                opened.append(name)
            super().__init__(name, mode, *args, **kwargs)

    def save(obj, f, *args, **kwargs):
        if isinstance(f, (str, os.PathLike)):
            f = d.open(f, 'w')
            opened.append(f)
        return _save(obj, f, *args, **kwargs)

    def load(f, *args, **kwargs):
        if isinstance(f, (str, os.PathLike)):
            f = io.BufferedReader(d.open(f, 'r'))
            opened.append(f)
        return _load(f, *args, **kwargs)

    def getitem(self, name):
        # With a real disk, this is what h5py makes of errors while it looks
        # for an object
        try:
            return _getitem(self, name)
        except OSError as e:
            raise KeyError('Unable to synchronously open object (%s)' % e) \
                from None

    def contains(self, name):
        try:
            return _contains(self, name)
        except OSError as e:
            raise RuntimeError('Unable to synchronously check link existence '
                               '(%s)' % e) from None

    SimFile.__name__ = 'File'
    h5py.File = SimFile
    h5py.Group.__getitem__, h5py.Group.__contains__ = getitem, contains
    t.save, t.load = save, load
    try:
        yield d
    finally:
        h5py.File = _h5file
        h5py.Group.__getitem__, h5py.Group.__contains__ = _getitem, _contains
        t.save, t.load = _save, _load
        # Whatever HDF5 still wants to write is lost, but it does not notice
        d.active = False
        for f in opened:
            try:
                f.inner.flush()
            except (AttributeError, ValueError):
                pass
