"""C02: accept/refuse decision of sign and verify compared with an executable key/algorithm policy."""
import itertools
import json

from vf import gen, keys, refjose as R
from vf.psi import JsonWebKey, JsonWebSignature, JsonWebSignatureHeader, JsonWebToken, JoseError, attempt, jwk

RULE = ("All combinations header algorithm x key (oct, RSA, P-256/384/521, private and public) with every value of one further policy factor "
        "(declared alg, expected alg, kid, use, key_ops, header parameters), plus random multi-factor combinations, for signing and verifying "
        "with the best signature obtainable; non-trivial when the policy refuses or a factor differs from the default.")

ALGS = R.ALGS + ["none"]
BADALGS = ["HS128", "HS1", "hs256", "HS256 ", " HS256", "ES256K", "RS1", "EdDSA", "A128GCM", "None", "NONE", "", "HS", "PS256\0", "HS-256",
           None, 0, 256, True, [], ["HS256"], {}, {"HS256": 1}]
CURVE_OF = R.ALG_CURVE


def allowed(op, halg, key, private, jparams, hkid, expected):
    """(allowed?, judged?) by the written policy. Header assumed well formed with a supported algorithm."""
    if expected and expected != halg and op == "verify":
        return False
    if jparams.get("alg") and jparams["alg"] != halg:
        return False
    if hkid is not None and jparams.get("kid") != hkid:
        return False
    if jparams.get("use") and jparams["use"] != "sig":
        return False
    ops = jparams.get("key_ops")
    if ops:
        if any(o not in ("sign", "verify") for o in ops):
            return False
        if ("sign" if op == "sign" else "verify") not in ops:
            return None  # not judged
    if halg == "none":
        return None  # unsecured tokens: documented as the caller's risk
    if R.KTY[halg[:2]] != key.kty:
        return False
    if key.kty == "EC" and CURVE_OF[halg] != key.p["crv"]:
        return False
    if op == "sign" and not private:
        return False
    return True


def best_signatures(halg, key, msg):
    """Signatures an attacker or a confused signer could attach for header algorithm halg with this key."""
    if halg == "none":
        return [b""]
    fam, b = halg[:2], halg[2:]
    if R.KTY[fam] == key.kty and (key.kty != "EC" or CURVE_OF[halg] == key.p["crv"]):
        return [key.raw_sign(halg, msg)]
    out = [b""]
    if fam == "HS":
        if key.kty != "oct":
            for secret in (keys.pem(key, public=True), b"", R.jdump(key.jwk(False)), keys.pem(key), keys.pem(key, public=True).replace(b"\n", b"")):
                out.append(R.Key("oct", k=secret).raw_sign(halg, msg))
    elif fam == "ES" and key.kty == "EC":
        from cryptography.hazmat.primitives.asymmetric import ec
        from cryptography.hazmat.primitives.asymmetric.utils import decode_dss_signature
        r, s = decode_dss_signature(key._ec_private().sign(msg, ec.ECDSA(R.CHASH[b]())))
        for size in (R.CURVES[CURVE_OF[halg]][1], R.CURVES[key.p["crv"]][1]):
            try:
                out.append(r.to_bytes(size, "big") + s.to_bytes(size, "big"))
            except OverflowError:
                pass
    else:
        for a in key.algs()[:3]:
            out.append(key.raw_sign(a, msg))
    return out


class World:
    def __init__(self, c):
        self.c = c
        self.jwks = {}
        self.fresh = False      # every trial with a key object of its own, gone afterwards
        rng = c.rng
        self.keys = [keys.seeded_oct(rng, 64), rng.choice(keys.rsa_small())] + [keys.seeded_ec(rng, cv) for cv in R.CURVES]

    def jk(self, i, private, params):
        if self.fresh:
            return jwk(self.keys[i], private, **params)
        k = (i, private, json.dumps(params, sort_keys=True))
        if k not in self.jwks:
            self.jwks[k] = jwk(self.keys[i], private, **params)
        return self.jwks[k]

    def trial(self, kind, halg, i, private, params, hkid=None, expected=None, hextra=None, op="verify", jwt=False):
        c = self.c
        key = self.keys[i]
        header = {"alg": halg, **(hextra or {})}
        if hkid is not None:
            header["kid"] = hkid
        want = allowed(op, halg, key, private, params, hkid, expected)
        jk = self.jk(i, private, params)
        payload = b'{"sub":"x"}'
        sample = "%s halg=%s key=%s/%s private=%s params=%s kid=%r expected=%r" % (op, halg, key.kty, key.p.get("crv", ""), private, params, hkid, expected)
        if op == "sign":
            if jwt:
                st, res = attempt(lambda: JsonWebToken({"sub": "x"}, dict(header)).encode(jk))
            else:
                st, res = attempt(lambda: JsonWebSignature(payload, dict(header)).serialize(jk))
            outcomes = [(st, res, None)]
        else:
            msg = R.b64e(R.jdump(header)) + b"." + R.b64e(payload)
            outcomes = []
            for sig in best_signatures(halg, key, msg):
                tok = msg + b"." + R.b64e(sig)
                fn = JsonWebToken.decode if jwt else JsonWebSignature.deserialize
                outcomes.append(attempt(fn, tok, jk, expected) + (tok,))
        for st, res, tok in outcomes:
            c.case(kind + ":" + op, (sample, tok if want is False else None, jwt), sample=sample + " -> " + st)
            if want is None:
                c.count("not-judged")
            elif want:
                c.count("policy-allows")
                c.check(st == "ok", "operation permitted by the policy was refused", case=sample, error=repr(res), token=tok)
                if st == "ok" and op == "sign":
                    t = res.encode() if isinstance(res, str) else res
                    c.check(R.verify_token(t, key) is not None, "signed token does not verify under the header algorithm", case=sample, token=t)
            else:
                c.count("policy-refuses")
                c.check(st == "err", "operation forbidden by the key/algorithm policy succeeded", case=sample, token=tok, result=repr(res)[:200])


def run(c):
    rng = c.rng
    w = World(c)
    n_keys = len(w.keys)
    idx = [(i, p) for i in range(n_keys) for p in ((True, False) if w.keys[i].kty != "oct" else (True,))]
    # 1. algorithm x key, each operation
    for halg in ALGS:
        for i, private in idx:
            for op in ("sign", "verify"):
                for jwt in (False, True):
                    w.trial("alg-key", halg, i, private, {}, op=op, jwt=jwt)
    # 2. expected algorithm
    for halg in ALGS:
        for i, private in idx:
            if halg != "none" and R.KTY[halg[:2]] != w.keys[i].kty and rng.random() < 0.6:
                continue
            for expected in ALGS + [halg.lower(), halg + " ", halg[:-1], halg[:2], "*", halg + "," + "HS256", "any"]:
                if expected == halg and halg == "none":
                    continue
                w.trial("expected", halg, i, private, {}, expected=expected, jwt=rng.random() < 0.3)
    # 3. declared alg of the key
    for halg in ALGS:
        for i, private in idx:
            compatible = halg != "none" and R.KTY[halg[:2]] == w.keys[i].kty and (w.keys[i].kty != "EC" or CURVE_OF[halg] == w.keys[i].p["crv"])
            if w.keys[i].kty != "oct" and private and rng.random() < (0.3 if not c.thorough else 0):
                continue
            for declared in ALGS + ["RSA-OAEP", "dir", "A128KW", halg.lower()]:
                if not compatible and declared != halg and rng.random() < 0.7:
                    continue
                op = rng.choice(("sign", "verify"))
                w.trial("declared", halg, i, private, {"alg": declared}, op=op, jwt=rng.random() < 0.3)
                if declared == halg or rng.random() < 0.2:
                    w.trial("declared", halg, i, private, {"alg": declared}, op="verify", expected=halg)
    # 4. kid, use, key_ops over legitimate pairs
    legit = [(a, i) for a in R.ALGS for i in range(n_keys) if R.KTY[a[:2]] == w.keys[i].kty and (w.keys[i].kty != "EC" or CURVE_OF[a] == w.keys[i].p["crv"])]
    for halg, i in legit + [("none", 0), ("none", 1), ("none", 2)]:
        private = rng.random() < 0.7 or w.keys[i].kty == "oct"
        for op in ("sign", "verify"):
            if op == "sign":
                private = True
            kid = rng.choice(["key-1", "2011-04-29", "Key One", "ключ"])
            w.trial("kid", halg, i, private, {"kid": kid}, hkid=kid, op=op)
            w.trial("kid", halg, i, private, {"kid": kid}, hkid=None, op=op)
            w.trial("kid", halg, i, private, {}, hkid=kid, op=op)
            miss = gen.near_misses(kid)
            miss = [m for m in miss if m]
            for m in rng.sample(miss, c.n(8, 40)):
                w.trial("kid", halg, i, private, {"kid": kid}, hkid=m, op=op)
            for use in ("sig", "enc", "SIG", "Sig", "sig ", "signature", "encsig", "sig,enc", "s", "sign", "verify"):
                w.trial("use", halg, i, private, {"use": use}, op=op)
            for ops in (["sign"], ["verify"], ["sign", "verify"], ["verify", "sign"], ["encrypt"], ["decrypt"], ["sign", "encrypt"], ["verify", "deriveKey"],
                        ["sign", "verify", "wrapKey"], ["wrapKey", "verify", "sign"], ["Sign"], ["Verify", "verify", "sign"], ["verif"], ["signverify"], ["si", "sign", "verify"]):
                w.trial("key_ops", halg, i, private, {"key_ops": ops}, op=op)
    # each refusal in the company of each header parameter and key parameter that has no say in it
    company = [(h, {}) for h in R.HEADERS] + [({}, p) for p in ({"x5c": ["AAAA"]}, {"x5t": "AAAA"}, {"x5u": "https://k.example/x"}, {"ext": True}, {"name": "n"}, {"iat": 1, "exp": 9999999999}, {"nbf": 1}, {"status": "trusted"}, {"x5t#S256": "AAAA"}, {"oth": []})]
    for hx, px in company:
        for halg, i in rng.sample(legit, c.n(4, len(legit))):
            for op in ("sign", "verify"):
                t = lambda params, **kw: w.trial("company", halg, i, True, dict(px, **params), hextra=hx, op=op, jwt=rng.random() < 0.3, **kw)
                t({})
                t({"kid": "key-1"}, hkid="key-2")
                t({}, hkid="key-2")
                t({"kid": "key-1"}, hkid="key-1")
                t({"use": "enc"})
                t({"key_ops": ["encrypt"]})
                t({"alg": rng.choice([a for a in ALGS if a != halg])})
                t({"alg": halg, "use": "sig", "key_ops": ["sign", "verify"]}, expected=halg)
                t({}, expected=rng.choice([a for a in R.ALGS if a != halg]))
            other = rng.choice([a for a in ALGS if a != halg])
            w.trial("company", other, i, True, px, hextra=hx, op="verify")
    # 5. random multi-factor combinations
    for _ in range(c.n(2500, 60000)):
        i, private = rng.choice(idx)
        halg = rng.choice(ALGS) if rng.random() < 0.4 else rng.choice(w.keys[i].algs())
        params = {}
        if rng.random() < 0.4:
            params["alg"] = halg if rng.random() < 0.6 else rng.choice(ALGS)
        if rng.random() < 0.4:
            params["kid"] = rng.choice(["a", "b", "A"])
        if rng.random() < 0.3:
            params["use"] = rng.choice(["sig", "sig", "enc"])
        if rng.random() < 0.3:
            params["key_ops"] = rng.choice([["sign", "verify"], ["sign"], ["verify"], ["encrypt", "decrypt"]])
        hkid = rng.choice([None, None, "a", "b"])
        expected = rng.choice([None, halg, halg, rng.choice(ALGS)])
        w.trial("random", halg, i, private, params, hkid, expected, rng.choice(R.HEADERS), op=rng.choice(("sign", "verify")), jwt=rng.random() < 0.3)
    short_lived(c, w, legit)
    headers(c, w)
    unsecured(c, w)
    raw_keys(c, w)
    for k in ("policy-allows", "policy-refuses", "header-refused", "header-accepted", "none-refused", "public-sign-refused"):
        c.require(k, 15)


def short_lived(c, w, legit):
    """The same header again and again, with keys that exist for one operation only and differ in what they permit."""
    rng = c.sub_rng("short-lived")
    w.fresh = True
    for halg, i in legit:
        good = {"kid": "k", "alg": halg, "use": "sig", "key_ops": ["sign", "verify"]}
        others = [dict(good, kid="l"), dict(good, alg=next(a for a in w.keys[i].algs() + ["dir"] if a != halg)), dict(good, use="enc"), dict(good, key_ops=["encrypt"]), {}, {"kid": ""}, dict(good, alg="none")]
        for n in range(c.n(14, 100)):
            op = ("verify", "sign")[n % 2] if n % 4 else "verify"
            w.trial("short-lived", halg, i, True, good, hkid="k", op=op, jwt=n % 3 == 0)
            w.trial("short-lived", halg, i, True, rng.choice(others), hkid="k", op=op, jwt=n % 3 == 0)
            if w.keys[i].kty != "oct" and n % 3 == 0:
                w.trial("short-lived", halg, i, False, good, hkid="k", op="verify")
                w.trial("short-lived", halg, i, False, good, hkid="k", op="sign")
    w.fresh = False


def headers(c, w):
    """Malformed headers are refused when built, when signing and when decoding a correctly signed token."""
    rng = c.rng
    key = w.keys[0]
    jk = w.jk(0, True, {})
    jkk = w.jk(0, True, {"kid": "k"})
    bad = []
    for a in BADALGS:
        if a is not None:
            bad.append({"alg": a})
    bad += [{}, {"typ": "JWT"}, {"ALG": "HS256"}, {"enc": "HS256"}]
    for p in ("typ", "cty", "kid"):
        for v in (0, 1, 1.5, True, False, [], ["JWT"], {}, {"a": 1}, ""):
            bad.append({"alg": "HS256", p: v})
    for v in (0, 1, True, "", "exp", [], {}, {"exp": 1}, [1], [""], [None], [[]], ["exp", 2], [{}], "alg", ["foo", ""]):
        bad.append({"alg": "HS256", "crit": v, "exp": 5, "foo": 1})
    for name in ("b64", "exp", "foo", "http://example.com/ext", "Alg", "iss", "nonce", "ppt", "enc", "zip", "epk", "svt", "validate_alg", "crit2", "*", "key_ops"):
        for v in (True, 1, "x", [1], {"a": 1}):
            bad.append({"alg": "HS256", "crit": [name], name: v})
        bad.append({"alg": "HS256", "crit": [name]})                      # absent
        bad.append({"alg": "HS256", "crit": ["kid", name], "kid": "k", name: 1})
        bad.append({"alg": "HS256", "crit": [name, "kid"], "kid": "k", name: 1})
    for n in (3, 5, 9, 17, 40, 200):                                      # one bad name somewhere in a long list
        for pos in sorted({0, 1, n // 2, n - 2, n - 1}):
            for name, v in (("foo", 1), ("exp", 5), ("x5u", None), ("http://e/x", {"a": 1}), ("", 1), (1, None)):
                crit = ["kid"] * n
                crit[pos] = name
                h = {"alg": "HS256", "crit": crit, "kid": "k"}
                if v is not None and isinstance(name, str):
                    h[name] = v
                bad.append(h)
    for name in ("jku", "jwk", "x5u", "x5c", "x5t", "cty", "kid"):
        bad.append({"alg": "HS256", "crit": [name]})                      # named but absent
    for h in bad:
        use = jkk if h.get("kid") == "k" else jk
        for form in ("build", "sign", "decode", "jwt"):
            if form == "build":
                st, res = attempt(JsonWebSignatureHeader, dict(h))
            elif form == "sign":
                st, res = attempt(lambda: JsonWebSignature(b"x", dict(h)).serialize(use))
            else:
                tok = R.sign_token(h, b'{"sub":"x"}', key, alg="HS256")
                st, res = attempt((JsonWebToken if form == "jwt" else JsonWebSignature).decode if form == "jwt" else JsonWebSignature.deserialize, tok, use)
            c.case("bad-header:" + form, (json.dumps(h, sort_keys=True), form), sample=h)
            c.count("header-refused" if st == "err" else "header-refused-not")
            c.check(st == "err", "a malformed or unsupported header was accepted", header=h, form=form)
    good = [{"alg": "HS256"}, {"alg": "HS384", "typ": "JWT"}, {"alg": "HS512", "cty": "json", "typ": "x"}, {"alg": "HS256", "exp": 5, "foo": {"crit": 1}},
            {"alg": "HS256", "b64x": True}, {"alg": "HS256", "jku": "https://x/", "x5t": "abc"}]
    for h in good:
        st, res = attempt(lambda: JsonWebSignature(b"x", dict(h)).serialize(jk))
        c.case("good-header", json.dumps(h, sort_keys=True))
        if c.check(st == "ok", "a well formed header was refused", header=h, error=repr(res)):
            c.count("header-accepted", 5)
            st, res = attempt(JsonWebSignature.deserialize, res, jk)
            c.check(st == "ok", "a token with a well formed header was refused", header=h, error=repr(res))


def unsecured(c, w):
    rng = c.rng
    for i in range(len(w.keys)):
        key = w.keys[i]
        for params in ({}, {"kid": "k"}, {"alg": key.algs()[0]}, {"use": "sig"}):
            jk = w.jk(i, True, params)
            for alg in ("none", "None", "NONE", "nOne"):
                h = R.b64e(R.jdump({"alg": alg, "typ": "JWT"}))
                p = R.b64e(b'{"sub":"admin"}')
                msg = h + b"." + p
                legit = R.b64e(key.raw_sign(key.algs()[0], msg))
                for sig in (b"", legit, b"AA", b"x", b"=", b"null", b"0", b"none", b"None", b"e30", b"bm9uZQ", b"sig", p, b"-", b" ", b"\n", b"A" * 43):
                    for expected in (None,) + tuple(rng.sample(R.ALGS, 3)) + (key.algs()[0],):
                        if sig == b"" and expected is None and "alg" not in params and alg == "none":
                            continue  # caller's documented risk
                        for fn in (JsonWebSignature.deserialize, JsonWebToken.decode):
                            st, res = attempt(fn, msg + b"." + sig, jk, expected)
                            c.case("unsecured", (i, json.dumps(params), alg, sig, expected, fn is JsonWebToken.decode), sample=(alg, sig, expected, params))
                            c.count("none-refused" if st == "err" else "none-accepted")
                            c.check(st == "err", "an unsecured token was accepted although an algorithm is pinned or a signature is attached",
                                    alg=alg, signature=sig, expected=expected, key_params=params)


def raw_keys(c, w):
    """A key without its private part never signs."""
    for i, key in enumerate(w.keys):
        if key.kty == "oct":
            continue
        pubs = [w.jk(i, False, {}), JsonWebKey.parse(keys.pem(key, public=True), key.kty, True), JsonWebKey.parse(keys.pem(key), key.kty, True),
                JsonWebKey(w.jk(i, True, {}).dump()), JsonWebKey(w.jk(i, True, {}).dump(True))]
        for n, pub in enumerate(pubs):
            for alg in key.algs():
                st, res = attempt(lambda: JsonWebSignature(b"x", {"alg": alg}).serialize(pub))
                c.case("public-sign", (i, n, alg))
                c.count("public-sign-refused" if st == "err" else "public-signed")
                c.check(st == "err", "a public key produced a signature", alg=alg, form=n)
            kw = {"rsa_padding": "PKCS1v15"} if key.kty == "RSA" else {}
            st, res = attempt(lambda: pub.sign(b"data", "SHA256", **kw))
            c.check(st == "err", "a public key produced a raw signature", kty=key.kty, form=n)
        # non-keys in place of keys
        tok = R.sign_token({"alg": key.algs()[0]}, b"x", key)
        for notkey in (None, "", b"secret", "secret", {}, key.jwk(), [], object(), keys.pem(key, public=True)):
            st, _ = attempt(JsonWebSignature.deserialize, tok, notkey)
            c.case("non-key", repr(type(notkey)) + tok[:5].decode())
            c.check(st == "err", "a token was accepted with something that is not a key", key=repr(notkey)[:80])
