"""Deterministic key material: committed corpus with special octet patterns plus seeded keys."""
import json
import os

from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import serialization
from cryptography.hazmat.primitives.asymmetric import ec, rsa

from .refjose import CURVES, Key

with open(os.path.join(os.path.dirname(__file__), "data", "keys.json")) as f:
    _DATA = json.load(f)

_cache = {}


def ec_key(crv, d, tag="seeded"):
    n = ec.derive_private_key(d, CURVES[crv][0](), default_backend()).public_key().public_numbers()
    return Key("EC", crv=crv, x=n.x, y=n.y, d=d, tag=tag)


def corpus_ec(crv=None):
    if "EC" not in _cache:
        _cache["EC"] = [ec_key(c, int(d), t) for c, ds in _DATA["EC"].items() for t, d in ds.items()]
    return [k for k in _cache["EC"] if crv in (None, k.p["crv"])]


def corpus_rsa(max_bits=4096):
    if "RSA" not in _cache:
        _cache["RSA"] = [Key("RSA", **{k: (v if k == "tag" else int(v)) for k, v in e.items()}) for e in _DATA["RSA"]]
    return [k for k in _cache["RSA"] if k.p["n"].bit_length() <= max_bits]


def rsa_small():
    """2048-bit keys with quick private operations, usable for every RS/PS algorithm."""
    return [k for k in corpus_rsa() if k.p["tag"] in ("2048",)]


ORDER = {"P-256": 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
         "P-384": 0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973,
         "P-521": (1 << 521) - 0x5ae79787c40d069948033feb708f65a2fc44a36477663b851449048e16ec79bf7}


def seeded_ec(rng, crv):
    return ec_key(crv, rng.randrange(1, ORDER[crv]))


SPECIAL_SECRETS = [b"\0" * 32, b"\xff" * 64, b"\0" + b"a" * 40, b"=" * 33, b"-_" * 20, b"\xfb\xff\xfe" * 15,
                   b"secret with spaces and \n newline......", b"x", b"\0", b"a" * 63, b"a" * 64, b"a" * 65, b"a" * 127, b"a" * 128, b"a" * 129,
                   b"a" * 1000]


def oct_key(secret, tag="oct"):
    return Key("oct", k=secret, tag=tag)


def seeded_oct(rng, size=None):
    size = size if size is not None else rng.choice([32, 33, 47, 48, 64, 65, 128, rng.randrange(16, 200)])
    return oct_key(bytes(rng.getrandbits(8) for _ in range(size)))


def key_for(alg, rng):
    fam = alg[:2]
    if fam == "HS":
        return seeded_oct(rng)
    if fam == "ES":
        crv = {"256": "P-256", "384": "P-384", "512": "P-521"}[alg[2:]]
        return seeded_ec(rng, crv) if rng.random() < 0.5 else rng.choice(corpus_ec(crv))
    return rng.choice(rsa_small())


def crypto_private(key):
    """The key as an object of the cryptography package, built from its numbers."""
    p = key.p
    if key.kty == "EC":
        return ec.derive_private_key(p["d"], CURVES[p["crv"]][0](), default_backend())
    pub = rsa.RSAPublicNumbers(p["e"], p["n"])
    return rsa.RSAPrivateNumbers(p["p"], p["q"], p["d"], p["dp"], p["dq"], p["qi"], pub).private_key(default_backend())


def pem(key, public=False, fmt="traditional", password=None):
    k = crypto_private(key)
    if public:
        return k.public_key().public_bytes(serialization.Encoding.PEM, serialization.PublicFormat.SubjectPublicKeyInfo)
    f = serialization.PrivateFormat.PKCS8 if fmt == "pkcs8" else serialization.PrivateFormat.TraditionalOpenSSL
    e = serialization.BestAvailableEncryption(password) if password else serialization.NoEncryption()
    return k.private_bytes(serialization.Encoding.PEM, f, e)


def numbers_from_pem(data, password=None):
    """Independent reading of a PEM: dict of numbers, with 'private' flag."""
    if b"PRIVATE" in data:
        k = serialization.load_pem_private_key(data, password, default_backend())
        n = k.private_numbers()
        if isinstance(k, ec.EllipticCurvePrivateKey):
            return {"kty": "EC", "curve": n.public_numbers.curve.name, "x": n.public_numbers.x, "y": n.public_numbers.y, "d": n.private_value}
        return {"kty": "RSA", "n": n.public_numbers.n, "e": n.public_numbers.e, "d": n.d, "p": n.p, "q": n.q, "dp": n.dmp1, "dq": n.dmq1, "qi": n.iqmp}
    k = serialization.load_pem_public_key(data, default_backend())
    n = k.public_numbers()
    if isinstance(k, ec.EllipticCurvePublicKey):
        return {"kty": "EC", "curve": n.curve.name, "x": n.x, "y": n.y}
    return {"kty": "RSA", "n": n.n, "e": n.e}
