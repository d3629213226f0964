"""The simulated disk: Python side of simdisk.c."""

import ctypes
import os
import struct

OPEN, WRITE, TRUNC, RENAME, UNLINK, SYNC, MARK, FAULT, READ, CLOSE = range(1, 11)
C_READ, C_WRITE, C_OPEN, C_META, C_CLOSE = range(5)
K_ERRNO, K_SHORT, K_EINTR, K_EOF = 1, 2, 3, 4
STICKY = 256

_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.simdisk_start.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int]
        _lib.simdisk_rule.argtypes = [ctypes.c_int] * 4 + [ctypes.c_char_p]
        _lib.simdisk_mark.argtypes = [ctypes.c_long]
        _lib.simdisk_fired.restype = ctypes.c_long
        _lib.simdisk_count.restype = ctypes.c_long
        _lib.simdisk_adopt.argtypes = [ctypes.c_int, ctypes.c_int]
    return _lib


class Disk:
    """Controls the calls on the files below ``prefix`` in this process."""

    def __init__(self, prefix, log_path=None, reads=False):
        self.prefix = prefix
        self.fd = -1
        if log_path is not None:
            fd = os.open(log_path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            self.fd = 900
            os.dup2(fd, self.fd)
            os.close(fd)
        lib().simdisk_start(prefix.encode(), self.fd, int(reads))

    def rule(self, cls, nth, kind, arg=0, sub=''):
        lib().simdisk_rule(cls, nth, kind, arg, sub.encode())

    def split(self, reads=0, writes=0):
        lib().simdisk_split(reads, writes)

    def mark(self, n):
        lib().simdisk_mark(n)

    def fired(self):
        return lib().simdisk_fired()

    def count(self, cls):
        return lib().simdisk_count(cls)

    def stop(self):
        lib().simdisk_stop()
        if self.fd >= 0:
            os.close(self.fd)
            self.fd = -1


def parse(path):
    """[(op, id, off, length, path1, path2, data)]"""
    with open(path, 'rb') as f:
        data = f.read()
    out = []
    i = 0
    while i + 48 <= len(data):
        op, fid, off, length, ls, nd = struct.unpack_from('<6q', data, i)
        i += 48
        l1, l2 = ls & 0xffffffff, ls >> 32
        p1 = data[i:i + l1].decode('utf-8', 'replace'); i += l1
        p2 = data[i:i + l2].decode('utf-8', 'replace'); i += l2
        out.append((op, fid, off, length, p1, p2, data[i:i + nd])); i += nd
    return out


class Image:
    """Contents of the files below the prefix, rebuilt from the log."""

    def __init__(self, files=None):
        self.files = dict(files or {})

    def apply(self, rec, part=None):
        """Applies an operation, or only ``part`` bytes of a write."""
        op, _, off, length, p1, p2, data = rec
        if op == OPEN:
            if off or p1 not in self.files:
                self.files[p1] = b''
        elif op == WRITE:
            if not p1:
                return
            if part is not None:
                data = data[:part]
            old = self.files.get(p1, b'')
            if len(old) < off:
                old = old + b'\0' * (off - len(old))
            self.files[p1] = old[:off] + data + old[off + len(data):]
        elif op == TRUNC:
            old = self.files.get(p1, b'')
            self.files[p1] = old[:off] + b'\0' * (off - len(old))
        elif op == RENAME:
            if p1 in self.files:
                self.files[p2] = self.files.pop(p1)
        elif op == UNLINK:
            self.files.pop(p1, None)

    def copy(self):
        return Image(self.files)
