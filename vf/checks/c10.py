"""C10: whatever is decoded, only JOSE errors escape."""
import copy
import json

from vf import gen, keys, refjose as R
from vf.psi import JoseError, JsonWebKey, JsonWebSignature, JsonWebSignatureHeader, JsonWebToken, JsonWebTokenClaims, jwk
from psion.oidc.claims import IDToken

RULE = ("Byte-level and structure-aware fuzzing of every decoding entry point (JWS and JWT decode from bytes and text, with and without validation, options and expected "
        "algorithm, with keys of all families and small RSA sizes) and of header/claim construction with arbitrary JSON values; the monitor records the type of every "
        "exception that escapes. A case is one call; distinct by (entry point, key, input).")

PARAMS = ["alg", "typ", "cty", "kid", "crit", "jku", "jwk", "x5u", "x5c", "x5t", "x5t#S256", "b64", "enc", "zip", "p2c", "iv"]
CLAIMS = ["iss", "sub", "aud", "exp", "nbf", "iat", "jti", "auth_time", "nonce", "max_age", "acr", "azp"]


def deep(kind, n):
    x = 1
    for _ in range(n):
        x = [x] if kind == 0 else {"a": x}
    return x


def odd(rng, depth=3):
    r = rng.random()
    if r < 0.75:
        return gen.json_value(rng, depth)
    if r < 0.85:
        return deep(rng.randrange(2), rng.choice([1, 5, 50, 98]))
    return rng.choice([[], {}, [[]], [None], [{}], "", 0, -1, 10 ** 400, -10 ** 50, 1e308, True, False, None, "none", "HS256", "\x00", "a" * 5000, [1] * 500,
                       {"alg": "none"}, ["alg"], ["alg", "alg"], ["crit"], [1, "a"], ["a", None], [["alg"]], {"a": {"b": []}}])


class Monitor:
    def __init__(self, c):
        self.c = c

    def call(self, entry, fn, inp, ctx=""):
        c = self.c
        c.case(entry, (ctx, inp if isinstance(inp, (bytes, str)) else repr(inp)), sample="%s %r" % (ctx, inp))
        try:
            fn()
        except JoseError as exc:
            c.count("escaped:%s:%s" % (entry, type(exc).__name__))
            c.count("refused:" + entry)
        except Exception as exc:
            c.fail("%s escaped from %s" % (type(exc).__name__, entry), error=repr(exc), input=inp, context=ctx)
        else:
            c.count("accepted:" + entry)


ALGS = R.ALGS + ["none"]


def header_json(rng):
    h = {}
    if rng.random() < 0.95:
        h["alg"] = rng.choice(ALGS) if rng.random() < 0.85 else odd(rng)
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        n = rng.choice(PARAMS) if rng.random() < 0.8 else gen.uni_text(rng, 0, 6)
        h[n] = odd(rng)
    if rng.random() < 0.15:
        h["crit"] = rng.choice([["alg"], ["typ"], ["b64"], [rng.choice(PARAMS)], rng.sample(PARAMS, 3), ["__init__"], ["update"], [""], ["a" * 300], ["\ud83d"[:0] + "é"]])
    return h


def claims_json(rng):
    d = {}
    for _ in range(rng.choice([0, 1, 2, 4, 7])):
        n = rng.choice(CLAIMS) if rng.random() < 0.8 else gen.uni_text(rng, 0, 6)
        d[n] = odd(rng)
    return d


def payload_bytes(rng):
    r = rng.random()
    if r < 0.6:
        return json.dumps(claims_json(rng), ensure_ascii=rng.random() < 0.5).encode("utf-8")
    if r < 0.75:
        return json.dumps(odd(rng)).encode()
    if r < 0.85:
        return gen.rbytes(rng, rng.randrange(0, 60))
    return rng.choice([b"", b"{", b"[]", b"null", b"1", b'"x"', b"{}", b"{}{}", b'{"a":1}trailing', b'{"a":NaN}', b'{"exp":Infinity}', b'{"exp":1e999}', b'{"a":"\\ud800"}',
                       b'{"sub":"\\ud800"}', b'{"\\udfff":1}', b"\xef\xbb\xbf{}", '{"a":1}'.encode("utf-16"), b'{"exp":' + b"9" * 5000 + b"}", b'{"a":' * 200 + b"1" + b"}" * 200,
                       b"[" * 5000, b'{"a":' * 100000, b"\xff\xfe", b'{"a":"\xff"}', b'{"exp":1,"exp":2}', b'{"":""}', b'{"a":1,}', b"{'a':1}"])


def header_bytes(rng):
    r = rng.random()
    if r < 0.75:
        return json.dumps(header_json(rng), ensure_ascii=rng.random() < 0.5).encode("utf-8")
    if r < 0.85:
        return json.dumps(odd(rng)).encode()
    if r < 0.9:
        return gen.rbytes(rng, rng.randrange(0, 60))
    return rng.choice([b"", b"{", b"{}", b"[]", b"null", b"0", b'"HS256"', b'{"alg":"HS256","x":"\\ud800"}', b'{"alg":"HS256","alg":"none"}', b'{"alg":"none"}' + b" " * 50,
                       b'{"alg":"HS256","typ":"\\udc00"}', b'{"alg":"HS256","kid":"\\ud800"}', b'{"alg":NaN}', b'{"alg":"HS256","x":' + b"[" * 3000, b'{"alg":"HS256","x":' + b"[" * 90 + b"]" * 90 + b"}",
                       b'{"alg":"HS256","x":' + b"[" * 600 + b"]" * 600 + b"}", b'{"alg":"HS256","n":' + b"1" * 5000 + b"}", '{"alg":"HS256"}'.encode("utf-16"), b'\xff{"alg":"HS256"}'])


def run(c):
    rng = c.rng
    m = Monitor(c)
    ring = []
    for crv in R.CURVES:
        ring.append(rng.choice(keys.corpus_ec(crv)))
    ring += [keys.oct_key(b"s" * 40), keys.seeded_oct(rng, 1), rng.choice(keys.rsa_small())]
    ring += [k for k in keys.corpus_rsa(1100)[:1]]
    ring = [(repr(k), k, jwk(k)) for k in ring]
    for size in (512, 513, 768):
        jk = JsonWebKey.generate("RSA", size)
        ring.append(("RSA-%d" % size, None, jk))
    ring.append(("EC public", None, JsonWebKey(keys.corpus_ec("P-256")[0].jwk(False))))
    ring.append(("RSA public kid", None, JsonWebKey(keys.rsa_small()[0].jwk(False, kid="k", use="sig", key_ops=["verify"]))))
    ring.append(("oct alg", None, JsonWebKey(keys.oct_key(b"z" * 32).jwk(True, alg="HS256", kid="kid"))))

    def everywhere(tok, ctx, jk, text=True):
        alg = rng.choice([None, None, "HS256", "none", "RS256", "", "bogus"])
        m.call("jws.deserialize", lambda: JsonWebSignature.deserialize(tok, jk, alg), tok, ctx)
        if rng.random() < 0.3:
            m.call("jws.deserialize-unvalidated", lambda: JsonWebSignature.deserialize(tok, jk, alg, False), tok, ctx)
        m.call("jwt.decode", lambda: JsonWebToken.decode(tok, jk, alg), tok, ctx)
        if rng.random() < 0.3:
            m.call("jwt.decode-unvalidated", lambda: JsonWebToken.decode(tok, jk, None, False), tok, ctx)
        if rng.random() < 0.3:
            opts = {"iss": {"essential": True, "value": "x"}, "aud": {"values": ["a", "b"]}, rng.choice(CLAIMS): {"value": rng.choice([0, "", "n", [], {"a": 1}])}}
            m.call("jwt.decode-options", lambda: JsonWebToken.decode(tok, jk, None, True, opts), tok, ctx)
        if text:
            # as a framework hands it on: octets outside UTF-8, or a \ud800 of a JSON body, become lone surrogates
            t = tok.decode("utf-8", "surrogateescape")
            if rng.random() < 0.05:
                i = rng.randrange(len(t) + 1)
                t = t[:i] + rng.choice(["\ud800", "\udfff", "\udc80", "\ud83d"]) + t[i:]
            if any("\ud800" <= x <= "\udfff" for x in t):
                c.count("lone-surrogates")
            if rng.random() < 0.4:
                m.call("jwt.decode-text", lambda: JsonWebToken.decode(t, jk, alg), t, ctx)
            if rng.random() < 0.1:
                m.call("jws.deserialize-text", lambda: JsonWebSignature.deserialize(t, jk, alg), t, ctx)

    # 1. raw bytes and text
    for _ in range(c.n(2500, 60000)):
        name, key, jk = rng.choice(ring)
        tok = rng.choice([
            lambda: gen.rbytes(rng, rng.randrange(0, 120)),
            lambda: b".".join(gen.rbytes(rng, rng.randrange(0, 40)) for _ in range(rng.choice([1, 2, 3, 3, 3, 4, 6]))),
            lambda: b".".join(bytes(rng.choice(R.ALPHA) for _ in range(rng.randrange(0, 30))) for _ in range(3)),
            lambda: gen.uni_text(rng, 0, 40).encode("utf-8"),
            lambda: b"." * rng.randrange(0, 8),
        ])()
        everywhere(tok, name, jk)
    # 2. structured near-tokens: signed correctly by the key when possible, or with a signature of any size
    for _ in range(c.n(6000, 150000)):
        name, key, jk = rng.choice(ring)
        hb, pb = header_bytes(rng), payload_bytes(rng)
        msg = R.b64e(hb) + b"." + R.b64e(pb)
        sig = None
        try:
            alg = json.loads(hb).get("alg")
        except (ValueError, AttributeError, RecursionError):
            alg = None
        if key is not None and rng.random() < 0.6:
            use = alg if isinstance(alg, str) and alg in key.algs() else None
            if use is None and rng.random() < 0.7:
                # make the header valid for this key so that the payload is reached
                use = rng.choice(key.algs())
                h = {"alg": use}
                if rng.random() < 0.4:
                    h[rng.choice(["typ", "x", "jku", "cty"])] = rng.choice(["a", "é"])
                hb = json.dumps(h).encode()
                msg = R.b64e(hb) + b"." + R.b64e(pb)
            if use is not None:
                sig = key.raw_sign(use, msg)
                c.count("well-signed")
        if sig is None:
            sig = gen.rbytes(rng, rng.choice([0, 0, 1, 8, 31, 32, 33, 48, 63, 64, 65, 66, 95, 96, 97, 128, 131, 132, 133, 255, 256, 257, 1000]))
        enc = R.b64e(sig)
        r = rng.random()
        if r < 0.1:
            enc += rng.choice([b"=", b"==", b"===", b"A", b"\n", b"!", b" ", b"\xff", b"+", b"/"])
        tok = msg + b"." + enc
        if rng.random() < 0.15:
            i = rng.randrange(len(tok))
            tok = rng.choice([tok[:i] + gen.rbytes(rng, 1) + tok[i + 1:], tok[:i], tok[i:], tok[:i] + b"." + tok[i:], tok[:i] + tok[i + 1:], tok + tok])
        everywhere(tok, name, jk)
    # 3. every algorithm with every key and every signature size
    for name, key, jk in ring:
        for alg in ALGS:
            for size in [0, 1, 2, 31, 32, 33, 48, 63, 64, 65, 72, 96, 132, 128, 256, 257] if c.thorough else rng.sample(range(0, 140), 6) + [0, 32, 64, 96, 132, 128, 256]:
                sig = rng.choice([gen.rbytes(rng, size), b"\0" * size, b"\xff" * size, b"0" * size])
                tok = R.b64e(R.jdump({"alg": alg})) + b"." + R.b64e(b'{"a":1}') + b"." + R.b64e(sig)
                m.call("jwt.decode", lambda: JsonWebToken.decode(tok, jk), tok, name)
                m.call("jws.deserialize", lambda: JsonWebSignature.deserialize(tok, jk, alg), tok, name)
    # 4. constructors from arbitrary JSON values
    for _ in range(c.n(4000, 100000)):
        h = header_json(rng) if rng.random() < 0.8 else odd(rng)
        d = claims_json(rng) if rng.random() < 0.8 else odd(rng)
        m.call("header", lambda: JsonWebSignatureHeader(copy.deepcopy(h)), h)
        m.call("claims", lambda: JsonWebTokenClaims(copy.deepcopy(d)), d)
        m.call("id-token", lambda: IDToken(copy.deepcopy(d)), d)
        m.call("jws", lambda: JsonWebSignature(b"x", copy.deepcopy(h)), h)
        m.call("jwt", lambda: JsonWebToken(copy.deepcopy(d), copy.deepcopy(h)), (d, h))
        opts = {rng.choice(CLAIMS): rng.choice([{}, {"essential": True}, {"value": rng.choice([0, "a", [1]])}, {"values": [1, "a", [2], {"a": 1}]}]) for _ in range(rng.randrange(0, 4))}
        m.call("claims-options", lambda: JsonWebTokenClaims(copy.deepcopy(d), opts), (d, opts))
    for kind in (0, 1):
        for n in (97, 99):
            x = deep(kind, n)
            m.call("claims", lambda: JsonWebTokenClaims({"a": x}), "nested %d" % n)
            m.call("header", lambda: JsonWebSignatureHeader({"alg": "HS256", "a": x}), "nested %d" % n)
            m.call("jwt", lambda: JsonWebToken({"a": x}, {"alg": "HS256", "a": x}), "nested %d" % n)
    c.require("lone-surrogates", 100)
    for k in ("accepted:jwt.decode", "accepted:jws.deserialize", "accepted:jwt.decode-unvalidated", "accepted:header", "accepted:claims", "well-signed",
              "refused:jwt.decode", "refused:jws.deserialize", "refused:header", "refused:claims"):
        c.require(k, 20)
