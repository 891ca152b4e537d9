"""Independent reading of what a psion key object claims to be."""
import warnings

from vf import keys, refjose as R
from vf.psi import JsonWebSignature, attempt

CURVE_NAMES = {"secp256r1": "P-256", "secp384r1": "P-384", "secp521r1": "P-521"}
RSA_PRIV = ("d", "p", "q", "dp", "dq", "qi")


def dump(jk, public=True):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return jk.dump(public)


def export(jk, public=False):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return jk.export(public)


def want_numbers(key, private):
    """Expected JWK members of a key, in RFC 7518 encoding."""
    return key.jwk(private)


def check_state(c, jk, key, private, extras, what, pem=True, sign=True, original=None):
    """The psion key jk must be exactly `key` (private or public part) with these extra parameters."""
    ctx = dict(what=what, key=repr(key))
    pub = dump(jk, True)
    c.check(isinstance(pub, dict), "dump is not a dictionary", got=pub, **ctx)
    want = dict(want_numbers(key, key.kty == "oct"), **extras)
    c.check(dict(pub) == want, "the public dump is not the key with its parameters", want=want, got=pub, **ctx)
    pub.clear()
    pub["kty"] = "scribbled"
    c.check(dict(dump(jk, True)) == want, "changing a dump changes the key", want=want, **ctx)
    if private or key.kty == "oct":
        full = dict(want_numbers(key, True), **extras)
        got = dump(jk, False)
        c.check(dict(got) == full, "the private dump is not the key with its parameters", want=full, got=got, **ctx)
    if pem:
        if key.kty == "oct":
            import base64
            c.check(base64.b64decode(export(jk)) == key.p["k"], "the exported secret is not the secret", got=export(jk), **ctx)
        else:
            n = keys.numbers_from_pem(export(jk, True))
            if key.kty == "EC":
                c.check((CURVE_NAMES.get(n.get("curve")), n.get("x"), n.get("y")) == (key.p["crv"], key.p["x"], key.p["y"]), "the public PEM is another key", got=n, **ctx)
            else:
                c.check((n.get("n"), n.get("e")) == (key.p["n"], key.p["e"]), "the public PEM is another key", got=n, **ctx)
            c.check("d" not in n, "the public PEM is a private key", got=n, **ctx)
            if private:
                n = keys.numbers_from_pem(export(jk, False))
                if key.kty == "EC":
                    c.check((n.get("d"), n.get("x"), n.get("y")) == (key.p["d"], key.p["x"], key.p["y"]), "the private PEM is another key", got=n, **ctx)
                else:
                    bad = [x for x in ("n", "e") + RSA_PRIV if n.get(x) != key.p[x]]
                    c.check(not bad, "the private PEM has other numbers: %s" % bad, **ctx)
    if sign:
        alg = extras.get("alg") or key.algs()[0]
        msg = b"state-check " + what.encode("utf-8", "replace")
        header = {"alg": alg}
        if private:
            tok = JsonWebSignature(msg, header).serialize(jk)
            c.check(R.verify_token(tok, key) is not None, "a signature by the copy does not verify under the key", token=tok, **ctx)
            if original is not None:
                st, e = attempt(JsonWebSignature.deserialize, tok, original, alg)
                c.check(st == "ok", "a signature by the copy does not verify under the original", token=tok, error=repr(e), **ctx)
        tok = R.sign_token(header, msg, key)
        st, e = attempt(JsonWebSignature.deserialize, tok, jk, alg)
        c.check(st == "ok", "the copy does not verify a signature by the key", token=tok, error=repr(e), **ctx)
        c.count("signature-checks")
    c.count("state-checks")
