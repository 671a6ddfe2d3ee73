"""Monitors of file system effects: an audit hook that records events, and
snapshots of directory trees."""
from __future__ import annotations

import os
import stat
import sys

WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
PATH_EVENTS = {
    'os.rename': (0, 1), 'os.remove': (0, ), 'os.rmdir': (0, ),
    'os.mkdir': (0, ), 'os.chmod': (0, ), 'os.chown': (0, ),
    'os.link': (0, 1), 'os.symlink': (1, ), 'os.truncate': (0, ),
    'os.utime': (0, ), 'os.setxattr': (0, ), 'os.removexattr': (0, ),
    'os.mkfifo': (0, ), 'os.mknod': (0, ), 'os.lockf': (),
}
FORBIDDEN = ('socket.connect', 'socket.bind', 'socket.sendto',
             'socket.getaddrinfo', 'subprocess.Popen', 'os.system', 'os.exec',
             'os.posix_spawn', 'os.spawn', 'os.fork', 'os.forkpty', 'os.kill',
             'pty.spawn', 'urllib.Request', 'os.putenv', 'os.unsetenv',
             'os.chdir')

_sink = None
_installed = False


def _hook(event, args):
    s = _sink
    if s is not None:
        s(event, args)


def listen(fn):
    """Deliver audit events to fn (None: to nobody)."""
    global _sink, _installed
    if not _installed:
        sys.addaudithook(_hook)
        _installed = True
    _sink = fn


def writes(event, args):
    """Paths an event changes; None if it is not a change."""
    if event == 'open':
        path, mode, flags = (list(args) + [None, None, None])[:3]
        if isinstance(path, int):
            return None
        w = isinstance(flags, int) and flags & WRITE_FLAGS
        if isinstance(mode, str) and set(mode) & set('wax+'):
            w = True
        return [os.fsdecode(path)] if w else None
    idx = PATH_EVENTS.get(event)
    if idx is None:
        return None
    out = []
    for i in idx:
        p = args[i]
        if isinstance(p, int):
            try:
                p = os.readlink(f'/proc/self/fd/{p}')
            except OSError:
                continue
        out.append(os.path.abspath(os.fsdecode(p)))
    return out


class Recorder:
    def __init__(self):
        self.changes, self.forbidden, self.events = [], [], 0

    def __call__(self, event, args):
        w = writes(event, args)
        if w is not None:
            self.events += 1
            self.changes += [(event, os.path.abspath(p)) for p in w]
        elif event in FORBIDDEN:
            self.forbidden.append((event, repr(args)[:200]))

    def __enter__(self):
        listen(self)
        return self

    def __exit__(self, *a):
        listen(None)


def snapshot(root, times=True):
    """{relative path: what can be seen of it}."""
    out = {}
    for d, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(d, n)
            st = os.lstat(p)
            data = None
            if stat.S_ISREG(st.st_mode):
                with open(p, 'rb') as f:
                    data = f.read()
            elif stat.S_ISLNK(st.st_mode):
                data = os.readlink(p)
            out[os.path.relpath(p, root)] = (
                stat.S_IFMT(st.st_mode), stat.S_IMODE(st.st_mode), data,
                (st.st_ino, st.st_mtime_ns) if times and
                not stat.S_ISDIR(st.st_mode) else None)
    return out


def open_fds():
    return len(os.listdir('/proc/self/fd'))
