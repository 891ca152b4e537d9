"""Answers computed in a process that has not run anything yet."""
import os
import pickle
import struct


class Pristine:
    """A process forked before any request ran; it answers each question in a child of its own, so that "alone" means alone
    in the process too, not only on its provider."""

    def __init__(self, compute):
        ask_r, self.ask = os.pipe()
        self.answer, ans_w = os.pipe()
        self.pid = os.fork()
        if self.pid:
            os.close(ask_r), os.close(ans_w)
            return
        try:
            os.close(self.ask), os.close(self.answer)
            while True:
                q = self.read(ask_r)
                if q is None:
                    break
                pid = os.fork()
                if pid == 0:
                    try:
                        out = ("ok", compute(*q))
                    except BaseException as exc:
                        out = ("err", repr(exc))
                    self.write(ans_w, out)
                    os._exit(0)
                os.waitpid(pid, 0)
        finally:
            os._exit(0)

    @staticmethod
    def write(fd, obj):
        b = pickle.dumps(obj)
        b = struct.pack("!I", len(b)) + b
        while b:
            b = b[os.write(fd, b):]

    @staticmethod
    def read(fd):
        def exactly(n):
            out = b""
            while len(out) < n:
                x = os.read(fd, n - len(out))
                if not x:
                    return None
                out += x
            return out
        h = exactly(4)
        b = exactly(struct.unpack("!I", h)[0]) if h else None
        return pickle.loads(b) if b else None

    def __call__(self, *question):
        self.write(self.ask, question)
        return self.read(self.answer)

    def close(self):
        os.close(self.ask), os.close(self.answer)
        os.waitpid(self.pid, 0)
