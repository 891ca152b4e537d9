"""C11: the encoding helpers are lossless and total, judged by independent reference implementations."""
import base64
import hashlib
import json
import string
from urllib.parse import quote_plus

from vf import gen, refjose as R
from vf.psi import attempt
from psion import webtools as W

SCALE = 3
DEEP = 4
RULE = ("Every small byte string length and integer, sizes and integers around powers of two, Unicode, JSON values, parameter maps, Authorization headers and hash "
        "algorithms are passed through the helpers and their inverses and compared with independent implementations. A case is one value through one helper.")

SAFE = set(string.ascii_letters + string.digits + "_.-~")


def pct(s):
    """application/x-www-form-urlencoded decoding, independent of urllib."""
    out = bytearray()
    b = s.encode("ascii")
    i = 0
    while i < len(b):
        if b[i] == 0x2B:
            out.append(0x20)
        elif b[i] == 0x25 and len(b[i + 1:i + 3]) == 2 and all(chr(x) in string.hexdigits for x in b[i + 1:i + 3]):
            out.append(int(b[i + 1:i + 3], 16))
            i += 2
        else:
            out.append(b[i])
        i += 1
    return out.decode("utf-8")


def params(q):
    return [tuple(pct(x) for x in part.split("=", 1)) for part in q.split("&")]


def b64(c, data):
    e = W.base64url_encode(data)
    c.case("base64url", data, sample=data)
    want = base64.b64encode(data).replace(b"+", b"-").replace(b"/", b"_").rstrip(b"=")
    c.check(e == want, "base64url encoding differs from RFC 4648", data=data, got=e)
    st, d = attempt(W.base64url_decode, e)
    c.check(st == "ok" and d == data, "base64url decoding is not the inverse", data=data, encoded=e, got=d)
    # padded input is the same text to a decoder
    pad = e + b"=" * (-len(e) % 4)
    st, d = attempt(W.base64url_decode, pad)
    c.check(st == "ok" and d == data, "padded base64url is decoded differently", data=data, got=d)


def brief_int(d):
    return hex(d) if isinstance(d, int) else d


def integer(c, n):
    c.case("integer", hex(n), sample=hex(n))
    st, e = attempt(W.int_to_b64, n)
    if not c.check(st == "ok", "an integer could not be encoded", n=hex(n), error=repr(e)):
        return
    want = R.b64e(n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big"))
    c.check(e == want, "an integer is not encoded as minimal big-endian octets", n=hex(n), got=e, want=want)
    for v in (e, e.decode()):
        st, d = attempt(W.b64_to_int, v)
        c.check(st == "ok" and d == n and type(d) is int, "integer decoding is not the inverse", n=hex(n), got=brief_int(d))
    # leading zero octets denote the same number
    st, d = attempt(W.b64_to_int, R.b64e(b"\0\0" + n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big")))
    c.check(st == "ok" and d == n, "leading zero octets change the number", n=hex(n), got=brief_int(d))


def jsons(c, v):
    c.case("json", repr(v), sample=v)
    st, e = attempt(W.json_dumps, v)
    if c.check(st == "ok" and isinstance(e, str), "a JSON value could not be dumped", value=v, error=repr(e)):
        c.check(json.loads(e) == v, "the dumped JSON is another value", value=v, got=e)
        for f in (e, e.encode("utf-8")):
            st, d = attempt(W.json_loads, f)
            c.check(st == "ok" and d == v and json.dumps(d) == json.dumps(v), "JSON loading is not the inverse", value=v, got=d)
        # any formatting of the value loads to it
        for f in (json.dumps(v), json.dumps(v, indent=2, sort_keys=False), json.dumps(v, separators=(",", ":")).encode()):
            st, d = attempt(W.json_loads, f)
            c.check(st == "ok" and d == v, "reformatted JSON loads to another value", text=f, got=d)


def query(c, url, p):
    c.case("query", (url, tuple(p.items())), sample=(url, p))
    st, e = attempt(lambda: W.urlencode(url, **p))
    if not c.check(st == "ok" and isinstance(e, str), "a query could not be built", url=url, params=p, error=repr(e)):
        return
    c.check(e.startswith(url), "the URL was changed", url=url, got=e)
    rest = e[len(url):]
    c.check(rest[:1] == ("&" if "?" in url else "?"), "wrong separator", url=url, got=e)
    q = rest[1:]
    c.check(all(ch in SAFE or ch in "%+&=*" for ch in q), "the query has characters that need encoding", got=q)
    c.check(params(q) == list(p.items()) if p else q == "", "the query does not carry exactly the parameters", params=p, got=q)
    st, d = attempt(W.urldecode, q)
    c.check(st == "ok" and d == p, "query parsing is not the inverse of query building", params=p, query=q, got=d)


def headers_for(value):
    yield {"authorization": value}
    yield {"Authorization": value}
    yield {"host": "x", "authorization": value, "cookie": "Basic YTpi"}


def pair(got):
    try:
        return tuple(got)
    except TypeError:
        return (got,)


def basic(c, value, want, why):
    """want: (id, secret), None for nothing, or Ellipsis when only totality is judged."""
    for h in headers_for(value):
        st, got = attempt(W.get_basic_authorization, h)
        c.case("basic", (value, tuple(h)), sample="%s: %r" % (why, value))
        if not c.check(st == "ok", "parsing a Basic header raised", header=value, error=repr(got), why=why):
            continue
        if want is None:
            c.check(pair(got) == (None, None), "credentials were read from a header that is not well formed", header=value, got=got, why=why)
            c.count("basic-nothing")
        elif want is not Ellipsis:
            c.check(pair(got) == want, "other credentials were read than sent", header=value, got=got, want=want, why=why)
            c.count("basic-exact")


def bearer(c, value, want, why):
    for h in headers_for(value):
        st, got = attempt(W.get_bearer_authorization, h)
        c.case("bearer", (value, tuple(h)), sample="%s: %r" % (why, value))
        if not c.check(st == "ok", "parsing a Bearer header raised", header=value, error=repr(got), why=why):
            continue
        if want is not Ellipsis:
            c.check(got == want, "another Bearer token was read than sent", header=value, got=got, want=want, why=why)
            c.count("bearer-exact" if want else "bearer-nothing")


def authorization(c, rng):
    creds = [("id", "secret"), ("id", ""), ("", "secret"), ("", ""), ("a", "b:c"), ("a", ":"), ("a", "::x:"), ("é", "ß中"), ("with space", "se cret"), ("a", "x" * 3000),
             ("\u00a0", "\u2028"), ("a", " lead"), (" a", "b "), ("a", "b\n"), ("a\t", "\tb")]
    creds += [(gen.uni_text(rng, 0, 12).replace(":", ""), gen.uni_text(rng, 0, 30)) for _ in range(c.n(600, 15000))]
    # every length, for base64 padding
    creds += [("i", "s" * n) for n in range(80)]
    for a, b in creds:
        tok = base64.b64encode(("%s:%s" % (a, b)).encode("utf-8")).decode()
        for scheme in ("Basic", "basic", "BASIC", rng.choice(["bAsIc", "basiC"])):
            basic(c, "%s %s" % (scheme, tok), (a, b), "well formed")
        # RFC 7235: 1*SP between the scheme and the credentials
        basic(c, "Basic%s%s" % (" " * rng.randrange(2, 5), tok), (a, b), "several spaces")
        basic(c, "Basic %s" % base64.b64encode((a + b).replace(":", "").encode("utf-8")).decode() or "x", None, "no colon") if (a + b).replace(":", "") else None
        bearer(c, "Basic " + tok, None, "Basic credentials")
        for s in ("Bearer ", "Digest ", "Basi ", "Basicx ", "xBasic ", "Basic:", "Basic", "Token ", "Negotiate ", "DPoP ", "Hawk ", "Basic,", "Basic="):
            basic(c, s + tok, None, "another scheme")
    for v in ("", " ", "Basic", "Basic ", "basic  ", "Basic\t", "   ", "Basic A", "Basic AAAAA", "Bearer", ":", "a:b", "Basic =", "Basic ====", None):
        basic(c, v, None, "nothing there")
    for _ in range(c.n(800, 20000)):
        v = rng.choice(["Basic ", "basic ", "", "Bearer ", "BASIC\t"]) + rng.choice([gen.uni_text(rng, 0, 30), gen.text(rng, 0, 30), base64.b64encode(gen.rbytes(rng, rng.randrange(0, 30))).decode()])
        basic(c, v, Ellipsis, "arbitrary")
        bearer(c, v, Ellipsis, "arbitrary")
    for v in (0, 1, True, b"Basic YTpi", ["Basic YTpi"], {}, 1.5):
        basic(c, v, Ellipsis, "not text")
        bearer(c, v, Ellipsis, "not text")
    # invalid UTF-8 or undecodable base64 without a colon
    for v in ("Basic !!!!", "Basic ****", "Basic ..."):
        basic(c, v, None, "not base64")
    for h in ({}, {"x": "y"}):
        c.check(pair(W.get_basic_authorization(h)) == (None, None) and W.get_bearer_authorization(h) is None, "credentials without a header", headers=h)
    toks = ["abc", "mF_9.B5f-4.1JqM", "x" * 4000, "a.b.c", "==", "A" * 64] + ["".join(rng.choice(string.ascii_letters + string.digits + "-._~+/") for _ in range(rng.randrange(1, 90))) + rng.choice(["", "=", "=="]) for _ in range(c.n(300, 6000))]
    for t in toks:
        for scheme in ("Bearer", "bearer", "BEARER", "bEarer"):
            bearer(c, "%s %s" % (scheme, t), t, "well formed")
        bearer(c, "Bearer%s%s" % (" " * rng.randrange(2, 5), t), t, "several spaces")
        for s in ("Basic ", "Beare ", "Bearerx ", "xBearer ", "Token ", "Digest ", "DPoP ", "JWT ", "MAC ", "Negotiate ", "OAuth ", "Bearer, ", "Bearer: ", "GNAP "):
            bearer(c, s + t, None, "another scheme")
        if t not in ("Bearer",):
            bearer(c, t, None, "no scheme")
            bearer(c, "Bearer" + t if not t[0].isspace() else t, None, "no space")
    for _ in range(c.n(600, 10000)):
        # not the RFC's token syntax: all of it or nothing
        t = "".join(chr(rng.randrange(0x21, 0x7f)) for _ in range(rng.randrange(1, 40)))
        for h in headers_for("Bearer " + t):
            st, got = attempt(W.get_bearer_authorization, h)
            c.case("bearer-odd", t)
            c.check(st == "ok" and got in (t, None), "a part of a Bearer token was read", header="Bearer " + t, got=got)
    for v in ("", " ", "Bearer", "Bearer ", "bearer \t ", None):
        bearer(c, v, None, "nothing there")


def run(c):
    rng = c.rng
    # base64url: all strings of length 0..2, all lengths
    b64(c, b"")
    for i in range(256):
        b64(c, bytes([i]))
    for i in range(0, 65536, 1 if c.thorough else 7):
        b64(c, i.to_bytes(2, "big"))
    for n in gen.sizes(rng, c.n(400, 5000)):
        b64(c, gen.rbytes(rng, n))
    for n in range(3, c.n(300, 1200)):
        b64(c, gen.rbytes(rng, n))
        b64(c, rng.choice([b"\xff", b"\xfb\xef\xbe", b"\0", b"="]) * n)
    # integers
    for n in range(c.n(5000, 200000)):
        integer(c, n)
    for k in range(8, min(9000, c.n(700, 4200))):
        for d in (-1, 0, 1):
            integer(c, 2 ** k + d)
    for _ in range(c.n(1500, 30000)):
        integer(c, rng.getrandbits(rng.randrange(1, 4200)))
    for _ in range(c.n(60, 1000)):
        integer(c, rng.getrandbits(rng.choice([8191, 8192, 8193, 8200, 16384, 20000, 33000, 70000])))
    # JSON objects
    for v in ({}, {"": ""}, {"a": None}, {"é": "中😀"}, {"a": [1, 2.5, True, None, {"b": "\u2028\x00\x7f"}]}, {"a": 10 ** 200}, {"a": -0.0}, {"a": "\\\"/"}, [], [1], "x", "", 0, True, None):
        jsons(c, v)
    for _ in range(c.n(3000, 60000)):
        jsons(c, {gen.uni_text(rng, 0, 6): gen.json_value(rng, 4) for _ in range(rng.randrange(0, 6))})
    # query strings of non-empty names and values
    urls = ["https://c.example/cb", "https://c.example/cb?a=b", "https://c.example/?a=b&c=%20d", "http://[::1]:8080/x", "app:/cb", "https://c.example/a%20b", "/relative", "https://é.example/"]
    for v in gen.near_misses("state value&x=y%20+é") + ["\x00", "\n", "&", "=", "+", "%", "%2B", "%%", "?", "#", "a b", "é", "\U0001f600", "x" * 5000, " ", "0", "None"]:
        if v:
            query(c, rng.choice(urls), {"state": v})
            query(c, rng.choice(urls), {"code": "abc", "state": v, "z": "1"})
    for _ in range(c.n(3000, 60000)):
        p = {}
        for _ in range(rng.randrange(1, 6)):
            k = rng.choice(["code", "state", "error", "x"]) if rng.random() < 0.5 else gen.uni_text(rng, 1, 6)
            v = gen.uni_text(rng, 1, 20)
            if k not in ("url",):
                p[k] = v
        query(c, rng.choice(urls), p)
    for n in [8, 31, 33, 63, 65, 99, 101, 127, 129, 200, 257, 513, 999]:     # many parameters
        query(c, rng.choice(urls), {"p%d" % i: gen.uni_text(rng, 1, 5) for i in range(n)})
        query(c, rng.choice(urls), {"k" * n: "v" * n, "v": "k" * (n * 20)})
    # encodings made by others decode to the same
    for _ in range(c.n(1000, 20000)):
        p = {gen.uni_text(rng, 1, 6): gen.uni_text(rng, 1, 12) for _ in range(rng.randrange(1, 5))}
        enc = "&".join("%s=%s" % ("".join("%%%02X" % b for b in k.encode()), quote_plus(v)) for k, v in p.items())
        c.case("urldecode", enc)
        st, d = attempt(W.urldecode, enc)
        c.check(st == "ok" and d == p, "a percent-encoded query is parsed to other values", query=enc, want=p, got=d)
    authorization(c, rng)
    # token hash
    for b in ("256", "384", "512"):
        for fam in ("HS", "RS", "ES", "PS"):
            toks = ["", "a", "mF_9.B5f-4.1JqM", "é中"] + [gen.text(rng, 1, 120) for _ in range(c.n(60, 1500))]
            for t in toks:
                h = getattr(hashlib, "sha" + b)(t.encode("utf-8")).digest()
                want = base64.urlsafe_b64encode(h[: len(h) // 2]).rstrip(b"=").decode()
                st, got = attempt(W.create_half_hash, t, fam + b)
                c.case("half-hash", (fam + b, t), sample=(fam + b, t))
                c.check(st == "ok" and got == want, "the token hash is not the left half of the hash", alg=fam + b, token=t, want=want, got=got)
    # secret tokens have the requested length and alphabet (randomness: C26)
    for n in list(range(1, 130)) + [256, 1000]:
        t = W.secret_token(n)
        c.case("secret-token", n)
        c.check(isinstance(t, str) and len(t) == n and all(ch.isascii() and (ch.isalnum() or ch in "-_") for ch in t), "a generated token has another length or alphabet", size=n, got=t)
    c.check(len(W.secret_token()) == 32, "the default size of a token is not the documented one")
    # every character of the alphabet is equally likely: with N draws a count is N/64 +- 5.5 sigma (one in 10^5 runs of a fair source fails 64 such tests)
    n = c.n(128000, 1280000)
    draws = "".join(W.secret_token(1000) for _ in range(n // 1000))
    hist = {}
    for ch in draws:
        hist[ch] = hist.get(ch, 0) + 1
    c.case("secret-token-distribution", n)
    tol = 5.5 * (n / 64 * 63 / 64) ** 0.5
    c.check(len(hist) == 64 and all(abs(v - n / 64) < tol for v in hist.values()), "the characters of generated tokens are not equally likely", counts=sorted(hist.items()))
    # text and octets: the conversion helpers are inverses, and leave what already has the type alone
    for _ in range(c.n(500, 10000)):
        t = gen.uni_text(rng, 0, 30)
        b = t.encode("utf-8")
        c.case("text-octets", t)
        c.check(W.to_bytes(t) == b and W.to_string(b) == t and W.to_bytes(b) == b and W.to_string(t) == t, "text and octets are not converted losslessly", text=t)
        i = rng.getrandbits(rng.randrange(1, 200)) * rng.choice([1, -1])
        c.check(W.to_bytes(i) == str(i).encode(), "a number is not converted to its decimal digits", n=i, got=attempt(W.to_bytes, i))
    # the documented errors
    for v in (-1, -2 ** 64, "1", None, 1.0, b"\1", [1]):
        st, got = attempt(W.int_to_b64, v)
        c.case("error", ("int_to_b64", repr(v)))
        c.check(st != "ok" and isinstance(got, ValueError), "encoding what is not a natural number does not give the documented error", value=v, got=repr(got))
    for v in (1, 1.5, [], {}, ["QQ"], True):
        st, got = attempt(W.b64_to_int, v)
        c.case("error", ("b64_to_int", repr(v)))
        c.check(st != "ok" and isinstance(got, TypeError), "decoding what is not text does not give the documented error", value=v, got=repr(got))
    for v in (1, 1.5, [], {}, None, ["{}"], True, bytearray(b"{}")):
        st, got = attempt(W.json_loads, v)
        c.case("error", ("json_loads", repr(v)))
        c.check(st != "ok" and isinstance(got, TypeError), "loading what is not text does not give the documented error", value=repr(v), got=repr(got))
    for k in ("basic-exact", "basic-nothing", "bearer-exact", "bearer-nothing"):
        c.require(k, 100)
