"""Generators of hostile values."""
import unicodedata

ASCII = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
SPECIAL = "-._~:/?#[]@!$&'()*+,;=%\"\\<>{}|^` \t"
UNI = "éßñøþÅ\u0130\u0131ΑλЖяאبहाก中日한\u2028\u00a0\ufeff\U0001f600\U0001f468\u200d\U0001f4bb\ufffd\u0301İſK"


def rbytes(rng, n):
    return rng.randbytes(n)


def sizes(rng, n, big=70000):
    out = list(range(0, 12))
    for p in (16, 32, 48, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 65535, 65536):
        if p <= big:
            out += [p]
    while len(out) < n:
        out.append(rng.randrange(0, 300))
    return out


def text(rng, lo=0, hi=20, alphabet=None):
    n = rng.randint(lo, hi)
    a = alphabet or rng.choice([ASCII, ASCII, ASCII + SPECIAL, ASCII + SPECIAL + UNI, UNI])
    return "".join(rng.choice(a) for _ in range(n))


def uni_text(rng, lo=0, hi=20):
    out = []
    for _ in range(rng.randint(lo, hi)):
        r = rng.random()
        if r < 0.3:
            out.append(rng.choice(ASCII))
        elif r < 0.5:
            out.append(rng.choice(SPECIAL))
        elif r < 0.6:
            out.append(chr(rng.randrange(0, 32)))
        elif r < 0.8:
            out.append(rng.choice(UNI))
        else:
            while True:
                cp = rng.randrange(0x80, 0x110000)
                if not 0xD800 <= cp < 0xE000:
                    break
            out.append(chr(cp))
    return "".join(out)


def json_value(rng, depth=3):
    r = rng.random()
    if depth <= 0 or r < 0.55:
        return rng.choice([
            lambda: None, lambda: True, lambda: False, lambda: 0, lambda: 1, lambda: -1,
            lambda: rng.randrange(-10 ** 6, 10 ** 6), lambda: rng.getrandbits(rng.choice([31, 53, 64, 200])),
            lambda: rng.choice([0.5, -1.25, 1e300, 1e-300, 3.141592653589793, 1e16]), lambda: "", lambda: text(rng), lambda: uni_text(rng),
        ])()
    if r < 0.78:
        return [json_value(rng, depth - 1) for _ in range(rng.randrange(0, 5))]
    return {(text(rng, 0, 8) if rng.random() < 0.7 else uni_text(rng, 0, 6)): json_value(rng, depth - 1) for _ in range(rng.randrange(0, 5))}


HOMO = {"a": "\u0430", "e": "\u0435", "o": "\u043e", "c": "\u0441", "p": "\u0440", "i": "\u0456", "s": "\u0455", "k": "\u212a", "S": "\u017f", "A": "\u0391"}


def near_misses(s, rng=None, extra=()):
    """Strings different from s that a sloppy comparison could take for s."""
    out = []
    add = out.append
    if s:
        add(s[:-1]); add(s[1:]); add(s[: len(s) // 2]); add(s[len(s) // 2:])
        add(s.upper()); add(s.lower()); add(s.swapcase()); add(s.capitalize()); add(s.title()); add(s.casefold())
        add(s[::-1])
        add(s + s); add(s + s[-1]); add(s[0] + s)
        last = s[-1]
        add(s[:-1] + chr((ord(last) ^ 1) or 1)); add(chr((ord(s[0]) ^ 1) or 1) + s[1:])
        mid = len(s) // 2
        add(s[:mid] + ("x" if s[mid] != "x" else "y") + s[mid + 1:])
        for i in {0, mid, len(s) - 1}:
            add(s[:i] + s[i].swapcase() + s[i + 1:])
        for i, ch in enumerate(s):
            if ch in HOMO:
                add(s[:i] + HOMO[ch] + s[i + 1:])
                break
        for i, ch in enumerate(s):
            if "!" < ch < "\x7f":       # full-width form: the same under NFKC
                add(s[:i] + chr(ord(ch) + 0xFEE0) + s[i + 1:])
                break
        add(s.replace("/", "\\")); add(s.replace(".", "\uff0e", 1)); add(s.replace("/", "\u2215", 1))
        for cut in (8, 16, 20, 32, 64, 72, 128):
            if len(s) > cut:
                add(s[:cut])
                add(s[:cut] + "".join("z" if ch != "z" else "q" for ch in s[cut:]))
                add("".join("z" if ch != "z" else "q" for ch in s[:-cut]) + s[-cut:])
        add("".join(sorted(s)))
        if len(s) > 1:
            add(s[1] + s[0] + s[2:])
    for t in (" ", "\t", "\n", "\r\n", "\0", "\u00a0", "\u200b", "\ufeff"):
        add(s + t); add(t + s)
    add(" " + s + " ")
    for t in ("/", "?", "#", "&", "=", "==", ".", "%", "%20", "%00", "*", "+", "a", "0", ",", ";", ":", "\u0301"):
        add(s + t)
    for t in ("a", "0", "=", "."):
        add(t + s)
    for t in ("urn:x:", "https://x/", "x ", "x,", "x/", "-", "_", "~", "@"):
        add(t + s)
    for t in (" x", ":x", "/x", "-", "_", "~", "@x", "|"):
        add(s + t)
    add(s.replace("_", "-")); add(s.replace("-", "_")); add(s.replace("_", " ")); add("".join(ch for ch in s if ch.isalnum())); add('"' + s + '"'); add("'" + s + "'"); add("[" + s + "]")
    for f in ("NFC", "NFD", "NFKC", "NFKD"):
        add(unicodedata.normalize(f, s))
    add(s.replace("-", "_")); add(s.replace("_", "-")); add(s.replace("+", " ")); add(s.replace(" ", "+"))
    add(s.rstrip("/")); add(s.replace("http:", "https:")); add(s.replace("https:", "http:"))
    add(s.replace("%", "%25")); add('"%s"' % s); add("'%s'" % s); add("*"); add("")
    add("[%r]" % s); add("None"); add("null"); add("undefined")
    out.extend(extra)
    seen, res = {s}, []
    for x in out:
        if x not in seen:
            seen.add(x)
            res.append(x)
    return res


def scribble(v):
    """Spoil a value in place, as its owner may: what was handed out must not be what the library keeps."""
    if isinstance(v, dict):
        for x in list(v.values()):
            scribble(x)
        for k in list(v)[:3]:
            v[k] = "scribbled"
        v["scribbled"] = ["scribbled"]
    elif isinstance(v, list):
        for x in v:
            scribble(x)
        v.append("scribbled")
    elif isinstance(v, bytearray):
        v[:] = b"scribbled"


def encodable(s):
    try:
        s.encode("utf-8")
    except UnicodeEncodeError:
        return False
    return True
