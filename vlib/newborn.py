"""Sessions that are the first thing a process does with composipy.

A worker runs thousands of sessions one after the other, so whatever the library sets up at its first
use (tables, caches of modules and classes) is set up in the first of them.  Some sessions are
therefore run in a fork of the worker as it was before its first call.
"""
import os
import pickle
import select
import signal
import struct

WAIT = 400


class Lost(BaseException):
    """A forked process died: the worker cannot go on."""


class Nursery:
    """A process that has imported everything and called nothing; it forks one child per session."""

    def __init__(self, run):
        ours, theirs = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(ours[1])
            os.close(theirs[0])
            try:
                self.serve(run, ours[0], theirs[1])
            finally:
                os._exit(0)
        os.close(ours[0])
        os.close(theirs[1])
        self.out, self.inp = ours[1], theirs[0]

    def serve(self, run, inp, out):
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        while True:
            job = os.read(inp, 8)
            if len(job) < 8:
                return
            if os.fork() == 0:
                try:
                    data = pickle.dumps(run(struct.unpack('<q', job)[0]))
                    send(out, struct.pack('<q', len(data))+data)
                finally:
                    os._exit(0)
            status = os.wait()[1]
            if status:
                return

    def session(self, i):
        os.write(self.out, struct.pack('<q', i))
        n = struct.unpack('<q', self.read(8))[0]
        return pickle.loads(self.read(n))

    def read(self, n):
        got = b''
        while len(got) < n:
            if not select.select([self.inp], [], [], WAIT)[0]:
                os.kill(self.pid, signal.SIGKILL)
                raise Lost('a session in a new process does not end')
            piece = os.read(self.inp, min(n-len(got), 1 << 20))
            if not piece:
                raise Lost('a new process died')
            got += piece
        return got


def send(fd, data):
    while data:
        data = data[os.write(fd, data):]
