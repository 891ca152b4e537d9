"""C03: lossless JWS/JWT round trips, token form, and no aliasing with the caller's objects."""
import copy
import json
import re

from vf import gen, keys, refjose as R
from vf.psi import JsonWebKey, JsonWebSignature, JsonWebToken, JsonWebTokenClaims, attempt, jwk

SCALE = 3
DEEP = 3
RULE = ("Generated payloads (every length 0..N, sizes around powers of two), headers and claim sets (nested JSON, Unicode, None values) under every "
        "algorithm are encoded and decoded by psion and the token is read independently; caller objects are snapshotted, mutated between steps and "
        "compared. A case is one round trip; all are non-trivial.")
TOKEN = re.compile(rb"^[A-Za-z0-9_-]+\.[A-Za-z0-9_-]*\.[A-Za-z0-9_-]*\Z")


def strip(d):
    return {k: v for k, v in d.items() if v is not None}


def scramble(obj):
    """Modify a JSON structure in place, at every level."""
    if isinstance(obj, dict):
        for v in list(obj.values()):
            scramble(v)
        for k in list(obj):
            if not isinstance(obj[k], (dict, list)):
                obj[k] = "MUTATED"
        obj["mutated"] = True
    elif isinstance(obj, list):
        for v in obj:
            scramble(v)
        obj.append("mutated")


def header_for(rng, alg):
    h = {"alg": alg}
    if rng.random() < 0.5:
        h["typ"] = rng.choice(["JWT", "at+jwt", gen.uni_text(rng, 1, 5)])
    if rng.random() < 0.3:
        h["cty"] = gen.text(rng, 1, 6)
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        name = rng.choice(["x5t", "jku", "foo", "Alg", "b64", gen.uni_text(rng, 0, 5), gen.text(rng, 1, 6)])
        if name not in ("alg", "typ", "cty", "kid", "crit"):
            h[name] = gen.json_value(rng, 3)
    items = list(h.items())
    rng.shuffle(items)
    return dict(items)


def claims_for(rng):
    d = {}
    for name in ("iss", "sub", "jti"):
        if rng.random() < 0.4:
            d[name] = rng.choice([gen.uni_text(rng, 0, 10), gen.text(rng, 0, 10), None])
    if rng.random() < 0.4:
        d["aud"] = rng.choice([gen.text(rng), [], [gen.text(rng) for _ in range(rng.randrange(4))], None])
    if rng.random() < 0.4:
        d["exp"] = rng.choice([10 ** 10, 2 ** 31 - 1 + 10 ** 9, 10 ** 18, 10 ** 40])
    if rng.random() < 0.3:
        d["nbf"] = rng.choice([0, 1, -5, 10 ** 9])
    if rng.random() < 0.3:
        d["iat"] = rng.choice([0, 1, 10 ** 9])
    for _ in range(rng.randrange(0, 6)):
        name = gen.uni_text(rng, 0, 6) if rng.random() < 0.5 else gen.text(rng, 1, 8, gen.ASCII)
        if name not in ("iss", "sub", "jti", "aud", "exp", "nbf", "iat"):
            d[name] = gen.json_value(rng, 4)
    d["z"] = rng.randrange(10 ** 6)
    items = list(d.items())
    rng.shuffle(items)
    return dict(items)


class Round:
    def __init__(self, c):
        self.c = c
        self.other = JsonWebKey({"kty": "oct", "k": "A" * 43, "kid": "another key", "alg": "HS384"})

    def independent(self, token, header, payload, alg, key):
        c = self.c
        c.check(TOKEN.match(token) is not None, "token is not three dot-separated unpadded base64url parts", token=token)
        h, p, s = (R.b64d(x) for x in token.split(b"."))
        c.check(json.loads(h.decode("utf-8")) == strip(header), "the token's header is not the given header", header=header, got=h)
        c.check(p == payload, "the token's payload is not the given payload", want=payload, got=p)
        if alg == "none":
            c.check(s == b"", "an unsecured token has a signature", token=token)
        else:
            c.check(R.verify_token(token, key) is not None, "the token does not verify independently", token=token, alg=alg)

    def jws(self, alg, key, jk, header, payload):
        c = self.c
        before = copy.deepcopy(header)
        st, obj = attempt(JsonWebSignature, payload, header)
        c.case("jws", (alg, payload, json.dumps(header, sort_keys=True)), sample="%s payload[%d]=%r header=%r" % (alg, len(payload), payload[:30], header))
        if not c.check(st == "ok", "a valid JWS could not be built", alg=alg, header=header, error=repr(obj)):
            return
        c.check(header == before, "building a JWS modified the caller's header", before=before, after=header)
        c.check(dict(obj.header) == strip(before) and obj.payload == payload, "the JWS object does not hold what it was given", header=before, got=dict(obj.header))
        t1 = obj.serialize(jk)
        c.check(isinstance(t1, bytes), "serialize did not return bytes", got=type(t1))
        scramble(header)  # the caller goes on using its own objects
        t2 = obj.serialize(jk)
        for t in (t1, t2):
            self.independent(t, before, payload, alg, key)
        if alg[:2] in ("HS", "RS", "no"):
            c.check(t1 == t2, "two serializations of the same JWS differ", alg=alg)
        d1 = JsonWebSignature.deserialize(t1, jk)
        c.check(dict(d1.header) == strip(before) and d1.payload == payload, "decoding does not return what was encoded", want=(before, payload), got=(dict(d1.header), d1.payload))
        # the receiver modifies its result; later decodes must not see it
        scramble(d1.header)
        d2 = JsonWebSignature.deserialize(t1, jk, alg)
        c.check(dict(d2.header) == strip(before) and d2.payload == payload, "a later decode returns modified data", want=(before, payload), got=(dict(d2.header), d2.payload))
        for peek, pk in ((t2, jk), (t2, None), (b".".join(t2.split(b".")[:2]) + b".AAAA", jk), (t2, self.other)):
            d3 = JsonWebSignature.deserialize(peek, pk, c.rng.choice([None, alg]), False)
            c.check(dict(d3.header) == strip(before) and d3.payload == payload, "decoding without validation returns other data", want=before, got=dict(d3.header))
        c.count("jws-roundtrips")
        # re-encode what was decoded
        t3 = d2.serialize(jk)
        self.independent(t3, strip(before), payload, alg, key)

    def jwt(self, alg, key, jk, header, claims):
        c = self.c
        hb, cb = copy.deepcopy(header), copy.deepcopy(claims)
        st, obj = attempt(JsonWebToken, claims, header)
        c.case("jwt", (alg, json.dumps(claims, sort_keys=True), json.dumps(header, sort_keys=True)), sample="%s claims=%r" % (alg, claims))
        if not c.check(st == "ok", "a valid JWT could not be built", alg=alg, header=header, claims=claims, error=repr(obj)):
            return
        c.check(header == hb and claims == cb, "building a JWT modified the caller's objects", before=(hb, cb), after=(header, claims))
        c.check(dict(obj.claims) == strip(cb) and dict(obj.header) == strip(hb), "the JWT does not hold what it was given", want=cb, got=dict(obj.claims))
        t1 = obj.encode(jk)
        c.check(isinstance(t1, str), "encode did not return text", got=type(t1))
        scramble(header)
        scramble(claims)
        t2 = obj.encode(jk)
        for t in (t1, t2):
            b = t.encode("ascii")
            c.check(TOKEN.match(b) is not None, "token is not three dot-separated unpadded base64url parts", token=b)
            h, p, s = (R.b64d(x) for x in b.split(b"."))
            c.check(json.loads(h.decode()) == strip(hb), "the token's header is not the given header", want=hb, got=h)
            c.check(json.loads(p.decode()) == strip(cb), "the token's claims are not the given claims", want=cb, got=p)
            if alg != "none":
                c.check(R.verify_token(b, key) is not None, "the token does not verify independently", token=b)
        d1 = JsonWebToken.decode(t1, jk)
        c.check(dict(d1.claims) == strip(cb) and dict(d1.header) == strip(hb), "decoding does not return what was encoded", want=(hb, cb), got=(dict(d1.header), dict(d1.claims)))
        scramble(d1.claims)
        scramble(d1.header)
        d2 = JsonWebToken.decode(t1.encode(), jk, alg, options={"z": {"essential": True}})
        c.check(dict(d2.claims) == strip(cb) and dict(d2.header) == strip(hb), "a later decode returns modified data", want=(hb, cb), got=(dict(d2.header), dict(d2.claims)))
        for peek, pk in ((t2, jk), (t2, None), (t2.rpartition(".")[0] + ".AAAA", jk), (t2.encode(), self.other)):
            d3 = JsonWebToken.decode(peek, pk, c.rng.choice([None, alg]), validate=False)
            c.check(dict(d3.claims) == strip(cb), "decoding without validation returns other claims", want=cb, got=dict(d3.claims))
        t3 = d2.encode(jk)
        c.check(dict(JsonWebToken.decode(t3, jk).claims) == strip(cb), "re-encoding decoded claims changes them", want=cb)
        c.count("jwt-roundtrips")


def run(c):
    rng = c.rng
    rd = Round(c)
    algs = R.ALGS + ["none"]
    pool = {a: [keys.key_for(a, rng) if a != "none" else keys.seeded_oct(rng) for _ in range(3)] for a in algs}
    pool = {a: [(k, jwk(k)) for k in ks] for a, ks in pool.items()}
    # every length, cheap algorithm; then sizes around powers of two
    key, jk = pool["HS256"][0]
    top = c.n(400, 3000)
    for n in range(top):
        rd.jws("HS256", key, jk, {"alg": "HS256"}, gen.rbytes(rng, n))
    for n in gen.sizes(rng, 40):
        a = rng.choice(["HS384", "HS512", "none", "ES256", "RS256"])
        k, j = rng.choice(pool[a])
        rd.jws(a, k, j, header_for(rng, a), rng.choice([gen.rbytes(rng, n), b"\0" * n, b"\xff" * n, b"." * n]))
    for n in [2 ** 20 + 1, 3 * 10 ** 6] + ([2 ** 22, 2 ** 24 + 1] if c.thorough else []):
        rd.jws("HS256", key, jk, {"alg": "HS256"}, gen.rbytes(rng, n))
        rd.jwt("HS256", key, jk, {"alg": "HS256"}, {"p": "y" * n, "z": 1})
    # header length modulo 3 and 4
    for n in range(c.n(70, 400)):
        rd.jws("HS256", key, jk, {"alg": "HS256", "p": "x" * n}, b"data")
        rd.jws("HS256", key, jk, {"alg": "HS256", "p": "é" * n}, b"data")
        rd.jwt("HS256", key, jk, {"alg": "HS256"}, {"p": "y" * n, "z": 1})
    for special in (b"\xff\xfe\x00", "é中😀".encode("utf-8"), b"\xed\xa0\x80", b"null", b"", b"{}", b'"', b"eyJ.eyJ.x", bytes(range(256))):
        rd.jws("HS512", *pool["HS512"][0], {"alg": "HS512"}, special)
    for _ in range(c.n(60, 1500)):
        for a in algs:
            k, j = rng.choice(pool[a])
            if rng.random() < 0.5:
                rd.jws(a, k, j, header_for(rng, a), gen.rbytes(rng, rng.randrange(0, 200)))
            else:
                rd.jwt(a, k, j, header_for(rng, a), claims_for(rng))
    for _ in range(c.n(500, 8000)):
        rd.jwt("HS256", key, jk, header_for(rng, "HS256"), claims_for(rng))
    # kid is kept too
    for kid in ["k1", "ключ", "a b", "\u00e9" * 3]:
        j = jwk(key, kid=kid)
        rd.jws("HS256", key, j, {"alg": "HS256", "kid": kid}, b"x")
        rd.jwt("HS256", key, j, {"kid": kid, "alg": "HS256"}, {"z": 1})
    # the claim set object on its own, and as input of a token
    for _ in range(c.n(200, 3000)):
        cl = claims_for(rng)
        snap = copy.deepcopy(cl)
        obj = JsonWebTokenClaims(cl, {"z": {"essential": True}})
        c.case("claims", json.dumps(snap, sort_keys=True))
        c.check(cl == snap and dict(obj) == strip(snap), "claim set differs from its input", want=snap, got=dict(obj))
        scramble(cl)
        c.check(dict(obj) == strip(snap), "claim set shares state with the caller's dictionary", want=snap, got=dict(obj))
        tok = JsonWebToken(obj, {"alg": "HS256"}).encode(jk)
        c.check(dict(JsonWebToken.decode(tok, jk).claims) == strip(snap), "a token built from a claim set object differs", want=snap)
    c.require("jws-roundtrips", 200)
    c.require("jwt-roundtrips", 200)
