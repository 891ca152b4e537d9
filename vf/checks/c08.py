"""C08: public views of a key never reveal private material, whatever happened to the key before."""
import base64
import json
import re
import warnings

from vf import keys, keyview as V, refjose as R
from vf.checks.c07 import extras_for
from vf.psi import JsonWebKey, JsonWebKeySet, JsonWebSignature, JsonWebToken, attempt

SCALE = 3
DEEP = 1.5
RULE = ("Random operation histories (dumps, exports, signing, verifying, key set membership, parsing, caller changes to returned dictionaries) on private EC and "
        "RSA keys; after each operation every public output is taint-scanned for each private number in decimal, hexadecimal, raw octets (both byte orders) and "
        "base64 at any nesting, its members are compared with the known public part, and public copies are asked to sign and to reveal their private part. "
        "A case is one scanned public output; distinct by (key, history).")

PRIVATE_NAMES = {"EC": {"d"}, "RSA": {"d", "p", "q", "dp", "dq", "qi", "oth"}}
B64 = re.compile(rb"[A-Za-z0-9+/_-]{16,}={0,2}")


def leaves(x, depth=0):
    if depth > 12:
        return
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(k, depth + 1)
            yield from leaves(v, depth + 1)
    elif isinstance(x, (list, tuple, set, frozenset)):
        for v in x:
            yield from leaves(v, depth + 1)
    else:
        yield x


def blobs(x):
    """Every octet string a reader could get out of a public output."""
    for leaf in leaves(x):
        if isinstance(leaf, bool) or leaf is None:
            continue
        if isinstance(leaf, int):
            yield str(leaf).encode()
            continue
        raw = leaf.encode("utf-8", "replace") if isinstance(leaf, str) else bytes(leaf) if isinstance(leaf, (bytes, bytearray)) else repr(leaf).encode()
        yield raw
        flat = raw.replace(b"\r", b"").replace(b"\n", b"")
        for m in B64.finditer(flat):
            s = m.group().rstrip(b"=").replace(b"+", b"-").replace(b"/", b"_")
            for off in range(4):
                t = s[off:]
                t = t[: len(t) - (1 if len(t) % 4 == 1 else 0)]
                try:
                    yield base64.urlsafe_b64decode(t + b"=" * (-len(t) % 4))
                except ValueError:
                    pass


class Taint:
    def __init__(self, key):
        self.key = key
        names = ("d",) if key.kty == "EC" else V.RSA_PRIV
        self.forms = []
        for n in names:
            v = key.p[n]
            if v.bit_length() < 64:
                continue
            raw = v.to_bytes((v.bit_length() + 7) // 8, "big")
            self.forms += [(n, "decimal", str(v).encode()), (n, "hex", b"%x" % v), (n, "octets", raw), (n, "little-endian", raw[::-1])]

    def scan(self, out):
        for b in blobs(out):
            low = b.lower()
            for n, form, needle in self.forms:
                if needle in (low if form == "hex" else b):
                    return n, form
        return None


class Monitor:
    def __init__(self, c, key, extras, trail):
        self.c, self.key, self.extras, self.trail = c, key, extras, trail
        self.taint = Taint(key)

    def public_output(self, kind, out):
        c = self.c
        c.case(kind, (repr(self.key), self.key.p.get("x") or self.key.p.get("n"), tuple(self.trail)), sample="%r after %s: %s" % (self.key, self.trail[-4:], out))
        hit = self.taint.scan(out)
        c.check(hit is None, "private value %s revealed by %s" % (hit, kind), key=repr(self.key), history=list(self.trail), output=out)
        c.count("scanned:" + kind)

    def public_dict(self, kind, d):
        c = self.c
        self.public_output(kind, d)
        leaked = PRIVATE_NAMES[self.key.kty] & set(d)
        c.check(not leaked, "private members %s in %s" % (sorted(leaked), kind), history=list(self.trail), output=d)
        want = self.key.jwk(False)
        try:
            got = {k: (d[k] if k in ("kty", "crv") else R.b2i(d[k]), ) for k in want}
        except Exception:
            got = None
        c.check(got == {k: (v if k in ("kty", "crv") else R.b2i(v), ) for k, v in want.items()}, "%s lacks the public part" % kind, want=want, got=d, history=list(self.trail))

    def public_pem(self, kind, data):
        c = self.c
        self.public_output(kind, data)
        c.check(b"PRIVATE" not in data.split(b"-----")[1], "%s is a private PEM" % kind, got=data)
        n = keys.numbers_from_pem(data)
        c.check(all(n.get(k) == self.key.p[k] for k in (("x", "y") if self.key.kty == "EC" else ("n", "e"))), "%s is another key" % kind, got=n)

    def public_key(self, kind, jk):
        """jk was obtained as a public key."""
        c = self.c
        ctx = dict(kind=kind, key=repr(self.key), history=list(self.trail))
        self.public_output("data of " + kind, dict(jk.data))
        leaked = PRIVATE_NAMES[self.key.kty] & set(jk.data)
        c.check(not leaked, "private members %s in data of %s" % (sorted(leaked), kind), **ctx)
        self.public_dict("dump of " + kind, jk.dump())
        self.public_dict("dump(True) of " + kind, jk.dump(public=True))
        self.public_pem("export of " + kind, jk.export(True))
        for what, fn in (("dump(False)", lambda: jk.dump(False)), ("export(False)", lambda: jk.export(False)), ("export()", lambda: jk.export())):
            st, got = attempt(fn)
            if st == "ok":
                c.fail("a public key gave an answer to %s" % what, got=got, **ctx)
            else:
                c.check(self.taint.scan([str(got), repr(got)]) is None, "the refusal of %s reveals a private value" % what, got=repr(got), **ctx)
            c.count("refused:" + what)
        alg = jk.data.get("alg") or self.key.algs()[0]
        st, got = attempt(lambda: JsonWebSignature(b"x", {"alg": alg}).serialize(jk))
        c.check(st == "err", "a public key signed a JWS", got=got, **ctx)
        st, got = attempt(lambda: JsonWebToken({"a": 1}, {"alg": alg}).encode(jk))
        c.check(st == "err", "a public key signed a JWT", got=got, **ctx)
        for h in ("SHA256", "SHA512"):
            for kw in ([{}] if self.key.kty == "EC" else [{"rsa_padding": "PKCS1v15"}, {"rsa_padding": "PSS"}]):
                st, got = attempt(lambda: jk.sign(b"data", h, **kw))
                c.check(st == "err", "a public key made a raw signature", got=got, **ctx)
        c.count("refused:sign")
        tok = R.sign_token({"alg": alg}, b"public view suffices", self.key)
        st, got = attempt(JsonWebSignature.deserialize, tok, jk, alg)
        c.check(st == "ok", "the public view does not verify a signature of the private key", error=repr(got), **ctx)
        c.count("verified-with-public-view")


LARGE = []


def observe(m, jk, others):
    """Take every public view of a private key."""
    m.public_dict("dump()", jk.dump())
    m.public_dict("dump(True)", jk.dump(True))
    m.public_pem("export(True)", jk.export(True))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ks = JsonWebKeySet(others + [jk])
        for kind, raw in (("keyset dump()", ks.dump()), ("keyset dump(True)", ks.dump(public=True))):
            for d in raw["keys"]:
                if d.get("kid") == jk.data["kid"]:
                    m.public_dict(kind, d)
            m.public_output(kind + " whole", raw)
        # in a large key set, at any place
        n = m.c.rng.choice([0, 5, 9, 10, 16, 31, len(LARGE)])
        rest = [k for k in LARGE if k.data["kid"] != jk.data["kid"]]
        for kind, raw in (("large keyset dump()", JsonWebKeySet(rest[:n] + [jk] + rest[n:]).dump()),):
            m.c.check(len(raw["keys"]) == len(rest) + 1, "a key set's public view has another number of keys", got=len(raw["keys"]))
            m.public_dict(kind, raw["keys"][min(n, len(rest))])
            for d in raw["keys"]:
                m.c.check("d" not in d, "the public view of a key set shows a private value", view=kind, got=d)


def run(c):
    rng = c.rng
    pool = keys.corpus_ec() + keys.corpus_rsa(c.n(1100, 4096))[: c.n(6, 20)] + keys.rsa_small()[:1]
    extra_keys = [keys.seeded_ec(rng, rng.choice(list(R.CURVES))) for _ in range(c.n(12, 200))]
    oct_other = JsonWebKey(keys.seeded_oct(rng).jwk(True, kid="oct-other"))
    ec_other = JsonWebKey(keys.corpus_ec("P-256")[5].jwk(True, kid="ec-other"))
    LARGE[:] = [JsonWebKey(keys.seeded_ec(rng, "P-256").jwk(True, kid="large-%d" % i)) for i in range(40)]
    group = [oct_other, ec_other] + [JsonWebKey(keys.seeded_ec(rng, "P-384").jwk(True, kid="ec-other-%d" % i)) for i in range(4)]
    for idx, key in enumerate(pool + extra_keys):
        for rep in range(c.n(1, 6)):
            extras = extras_for(rng, key, 0)
            extras["kid"] = "the-key"
            extras.pop("alg", None)
            if rng.random() < 0.5:
                extras["use"] = "sig"
            if rng.random() < 0.5:
                extras["alg"] = rng.choice(key.algs()[:3])
            if rng.random() < 0.3:
                extras["x5t"] = "abc"
            src = rng.choice(["jwk", "pem", "partial"])
            if src == "pem":
                jk = JsonWebKey.parse(keys.pem(key, fmt=rng.choice(["traditional", "pkcs8"])), key.kty, False, **extras)
            elif src == "partial" and key.kty == "RSA":
                jk = JsonWebKey({k: v for k, v in key.jwk(True, **extras).items() if k not in ("dp", "dq", "qi")})
            else:
                jk = JsonWebKey(key.jwk(True, **extras))
            trail = [src]
            m = Monitor(c, key, extras, trail)
            others = rng.sample(group, rng.choice([0, 1, 1, 2, 3, 5]))
            if m.taint.forms:  # the scanner must see private values where they are
                for out in (jk.dump(False), jk.export(False), json.dumps(jk.dump(False)), [str(key.p["d"])], {"a": [hex(key.p["d"])]}):
                    if m.taint.scan(out) is None:
                        raise AssertionError("the taint scanner is blind")
                    c.count("scanner-self-tests")
            observe(m, jk, others)
            alg = extras.get("alg") or key.algs()[0]
            for _ in range(c.n(6, 14)):
                op = rng.choice(["dump-private", "export-private", "sign", "verify", "verify-bad", "keyset-private", "keyset-public", "mutate-private", "mutate-public",
                                 "reload", "reload-pem", "public-dump", "public-export", "parse-public", "parse-public-pem", "sign-refused", "load-keyset", "remnants"])
                trail.append(op)
                if op == "dump-private":
                    jk.dump(False)
                elif op == "export-private":
                    jk.export(False)
                elif op == "sign":
                    tok = JsonWebSignature(b"m", {"alg": alg}).serialize(jk)
                    c.check(R.verify_token(tok, key) is not None, "a signature of the private key does not verify", history=list(trail))
                elif op == "verify":
                    JsonWebSignature.deserialize(R.sign_token({"alg": alg}, b"m", key), jk, alg)
                elif op == "verify-bad":
                    attempt(JsonWebSignature.deserialize, R.sign_token({"alg": alg}, b"m", key)[:-6] + b"AAAAAA", jk, alg)
                elif op == "sign-refused":
                    attempt(lambda: JsonWebSignature(b"m", {"alg": "HS256"}).serialize(jk))
                elif op == "keyset-private":
                    d = JsonWebKeySet([jk] + others).dump(False)
                    d["keys"][0]["leftover"] = "x"
                elif op in ("keyset-public", "load-keyset"):
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        raw = JsonWebKeySet(others + [jk]).dump()
                        again = JsonWebKeySet([jk]).load(json.loads(json.dumps(raw)))
                    m.public_key("key of a reloaded public set", again.get_key("the-key"))
                elif op == "mutate-private":
                    jk.dump(False).update(kid="evil", d="evil")
                elif op == "mutate-public":
                    jk.dump().update(kid="evil", d="evil")
                elif op == "reload":
                    jk = JsonWebKey(json.loads(json.dumps(jk.dump(False))))
                elif op == "reload-pem":
                    jk = JsonWebKey.parse(jk.export(), key.kty, False, **extras)
                elif op == "public-dump":
                    m.public_key("reloaded public dump", JsonWebKey(jk.dump()))
                elif op == "public-export":
                    m.public_key("parsed public export", JsonWebKey.parse(jk.export(True), key.kty, True, **extras))
                elif op == "parse-public":
                    m.public_key("private PEM parsed as public", JsonWebKey.parse(jk.export(), key.kty, True, **extras))
                elif op == "parse-public-pem":
                    pw = rng.choice([None, b"pw"])
                    m.public_key("private PEM parsed as public", JsonWebKey.parse(keys.pem(key, fmt="pkcs8", password=pw), key.kty, True, pw, **extras))
                elif op == "remnants":
                    # a JWK without the private exponent but with remnants of the private part, or with null/empty ones
                    d = key.jwk(True, **extras)
                    d.pop("d")
                    if rng.random() < 0.5:
                        d["d"] = None
                    st, k2 = attempt(JsonWebKey, d)
                    if st == "ok":
                        m.public_dict("dump of remnants", k2.dump())
                        m.public_pem("export of remnants", k2.export(True))
                c.count("op:" + op)
                observe(m, jk, others)
            c.count("histories")
    for k in ("scanned:dump()", "scanned:export(True)", "scanned:keyset dump()", "refused:dump(False)", "refused:export(False)", "refused:sign", "verified-with-public-view"):
        c.require(k, 50)
    c.require("scanner-self-tests", 50)
