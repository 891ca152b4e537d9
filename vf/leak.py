"""Recognising secrets, or parts of them, in any text the library produces."""
import base64
import binascii
import contextlib
import io
import logging
import re
import sys
import traceback
import urllib.parse as up
import warnings

W = 12          # a part of this many characters counts


def _int_forms(n):
    raw = n.to_bytes((n.bit_length() + 7) // 8 or 1, "big")
    return [str(n), "%x" % n] + _byte_forms(raw)


def _byte_forms(b):
    out = [b.hex(), base64.b64encode(b).decode(), base64.urlsafe_b64encode(b).decode(), repr(b)[2:-1], b.decode("latin-1")]
    for skip in (1, 2):   # inside a longer base64 text
        out += [base64.b64encode(b[skip:]).decode(), base64.urlsafe_b64encode(b[skip:]).decode()]
    return [x.rstrip("=") for x in out]


class Vault:
    def __init__(self):
        self.parts = {}       # shingle -> name
        self.names = set()

    def add(self, name, value):
        if isinstance(value, int):
            forms = _int_forms(value)
        elif isinstance(value, bytes):
            forms = _byte_forms(value)
        else:
            forms = [value] + _byte_forms(value.encode("utf-8"))
        for f in forms:
            f = f.casefold()
            for i in range(max(1, len(f) - W + 1)):
                s = f[i:i + W]
                if len(s) == W and len(set(s)) > 4:
                    self.parts.setdefault(s, name)
        self.names.add(name)

    def drop(self, name):
        self.parts = {s: n for s, n in self.parts.items() if n != name}

    def _scan(self, text, allowed):
        t = text.casefold()
        for i in range(len(t) - W + 1):
            n = self.parts.get(t[i:i + W])
            if n is not None and n not in allowed:
                return n, text[max(0, i - 20):i + W + 40]
        return None

    def find(self, text, allowed=()):
        """(name, context) of a secret disclosed by the text, or None."""
        if isinstance(text, (bytes, bytearray)):
            text = bytes(text).decode("utf-8", "surrogateescape")
        seen = set()
        todo = [(text, 0)]
        while todo:
            t, depth = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            hit = self._scan(t, allowed)
            if hit:
                return hit
            if depth < 3:
                if "%" in t:
                    todo.append((up.unquote_plus(t), depth + 1))
                for run in re.findall(r"[A-Za-z0-9+/_-]{16,}", t):
                    run = run.replace("-", "+").replace("_", "/")
                    for k in range(4):
                        cut = run[k:]
                        cut = cut[:len(cut) // 4 * 4]
                        try:
                            raw = base64.b64decode(cut)
                        except (binascii.Error, ValueError):
                            continue
                        dec = raw.decode("latin-1")
                        hit = self._scan(dec, allowed)
                        if hit:
                            return hit
        return None


def exception_text(exc):
    """All a log of the exception would show, and what the exception says of itself."""
    out = []
    seen = set()
    e = exc
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        out.append(type(e).__name__ + ": " + str(e))
        for a in ("description", "uri", "headers", "error"):
            v = getattr(e, a, None)
            if v:
                out.append(str(v))
        e = e.__cause__ or e.__context__
    # source lines are not values: only the messages of the chain
    try:
        out += ["".join(traceback.format_exception_only(type(exc), exc))]
    except Exception:
        pass
    return "\n".join(out)


class Output:
    def __init__(self):
        self.text = []


@contextlib.contextmanager
def capture():
    """Everything logged, warned or printed inside."""
    out = Output()

    class Handler(logging.Handler):
        def emit(self, record):
            try:
                out.text.append(self.format(record))
            except Exception as exc:
                out.text.append(repr((record.msg, record.args)) + repr(exc))

    h = Handler(0)
    root = logging.getLogger()
    level = root.level
    root.addHandler(h)
    root.setLevel(1)
    old = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = buf = io.StringIO()
    try:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            yield out
    finally:
        sys.stdout, sys.stderr = old
        root.removeHandler(h)
        root.setLevel(level)
        out.text.append(buf.getvalue())
        out.text += [str(w.message) for w in ws]
