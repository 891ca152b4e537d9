"""Independent JOSE implementation used as oracle (RFC 7515/7517/7518/7519).

Own base64url, own HMAC (hashlib/hmac), own RSA encodings with pow(), ECDSA through raw
cryptography primitives. Shares no code with psion."""
import base64
import hashlib
import hmac as _hmac
import json
import os

from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric.utils import decode_dss_signature, encode_dss_signature

ALPHA = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
NOT_ALPHA = bytes(c for c in range(256) if c not in ALPHA)
HASH = {"256": hashlib.sha256, "384": hashlib.sha384, "512": hashlib.sha512}
CHASH = {"256": hashes.SHA256, "384": hashes.SHA384, "512": hashes.SHA512}
CURVES = {"P-256": (ec.SECP256R1, 32), "P-384": (ec.SECP384R1, 48), "P-521": (ec.SECP521R1, 66)}
ALG_CURVE = {"ES256": "P-256", "ES384": "P-384", "ES512": "P-521"}
ALGS = [f + b for f in ("HS", "RS", "PS", "ES") for b in ("256", "384", "512")]
KTY = {"HS": "oct", "RS": "RSA", "PS": "RSA", "ES": "EC"}


class Malformed(Exception):
    pass


def b64e(data):
    return base64.b64encode(data, b"-_").rstrip(b"=")


def b64d(data):
    """Strict: unpadded URL-safe alphabet, no impossible length. (Trailing bits are not judged.)"""
    if isinstance(data, str):
        data = data.encode("ascii")
    if len(data) % 4 == 1:
        raise Malformed("length")
    if data.translate(None, ALPHA):
        raise Malformed("alphabet")
    return base64.b64decode(data + b"=" * (-len(data) % 4), b"-_", validate=True)


def i2b(n, size=None):
    size = size if size is not None else max(1, (n.bit_length() + 7) // 8)
    return b64e(n.to_bytes(size, "big")).decode()


def b2i(s):
    return int.from_bytes(b64d(s), "big")


# ---------------------------------------------------------------- keys
class Key:
    """kty, and numbers as Python integers / secret bytes."""

    def __init__(self, kty, **p):
        self.kty = kty
        self.p = p

    def __repr__(self):
        return "Key(%s, %s)" % (self.kty, self.p.get("tag", ""))

    def jwk(self, private=True, **extra):
        p = self.p
        if self.kty == "oct":
            out = {"kty": "oct", "k": b64e(p["k"]).decode()}
        elif self.kty == "EC":
            size = CURVES[p["crv"]][1]
            out = {"kty": "EC", "crv": p["crv"], "x": i2b(p["x"], size), "y": i2b(p["y"], size)}
            if private:
                out["d"] = i2b(p["d"], size)
        else:
            out = {"kty": "RSA", "n": i2b(p["n"]), "e": i2b(p["e"])}
            if private:
                out.update({k: i2b(p[k]) for k in ("d", "p", "q", "dp", "dq", "qi")})
        out.update(extra)
        return out

    def algs(self):
        if self.kty == "oct":
            return ["HS256", "HS384", "HS512"]
        if self.kty == "EC":
            return [{"P-256": "ES256", "P-384": "ES384", "P-521": "ES512"}[self.p["crv"]]]
        bits = self.p["n"].bit_length()
        out = ["RS256", "RS384", "RS512", "PS256", "PS384"]
        return out + (["PS512"] if bits >= 2048 else [])

    # raw signature operations
    def raw_sign(self, alg, msg):
        fam, b = alg[:2], alg[2:]
        if fam == "HS":
            return _hmac.new(self.p["k"], msg, HASH[b]).digest()
        if fam == "ES":
            r, s = decode_dss_signature(self._ec_private().sign(msg, ec.ECDSA(CHASH[b]())))
            size = CURVES[self.p["crv"]][1]
            return r.to_bytes(size, "big") + s.to_bytes(size, "big")
        k = (self.p["n"].bit_length() + 7) // 8
        em = emsa_pkcs1(msg, b, k) if fam == "RS" else emsa_pss(msg, b, self.p["n"].bit_length() - 1)
        return self.rsa_private(int.from_bytes(em, "big")).to_bytes(k, "big")

    def rsa_private(self, m):
        p, q = self.p["p"], self.p["q"]
        m1, m2 = pow(m, self.p["dp"], p), pow(m, self.p["dq"], q)
        return m2 + (m1 - m2) * self.p["qi"] % p * q

    def raw_verify(self, alg, msg, sig):
        memo = self.__dict__.setdefault("_memo", {})
        k = (alg, msg, sig)
        if k not in memo:
            if len(memo) > 4:
                memo.clear()
            memo[k] = self._raw_verify(alg, msg, sig)
        return memo[k]

    def _raw_verify(self, alg, msg, sig):
        fam, b = alg[:2], alg[2:]
        if KTY.get(fam) != self.kty:
            return False
        if fam == "HS":
            return _hmac.compare_digest(_hmac.new(self.p["k"], msg, HASH[b]).digest(), sig)
        if fam == "ES":
            if ALG_CURVE[alg] != self.p["crv"]:
                return False
            size = CURVES[self.p["crv"]][1]
            if len(sig) != 2 * size:
                return False
            try:
                self._ec_public().verify(
                    encode_dss_signature(int.from_bytes(sig[:size], "big"), int.from_bytes(sig[size:], "big")),
                    msg, ec.ECDSA(CHASH[b]()))
                return True
            except InvalidSignature:
                return False
        n, e = self.p["n"], self.p["e"]
        k = (n.bit_length() + 7) // 8
        if len(sig) != k or int.from_bytes(sig, "big") >= n:
            return False
        m = pow(int.from_bytes(sig, "big"), e, n)
        if fam == "RS":
            try:
                return m.to_bytes(k, "big") == emsa_pkcs1(msg, b, k)
            except ValueError:
                return False
        return emsa_pss_verify(msg, b, n.bit_length() - 1, m)

    def _ec_private(self):
        if "_priv" not in self.__dict__:
            self._priv = ec.derive_private_key(self.p["d"], CURVES[self.p["crv"]][0](), default_backend())
        return self._priv

    def _ec_public(self):
        if "_pub" not in self.__dict__:
            self._pub = ec.EllipticCurvePublicNumbers(self.p["x"], self.p["y"], CURVES[self.p["crv"]][0]()).public_key(default_backend())
        return self._pub


PKCS1_PREFIX = {
    "256": bytes.fromhex("3031300d060960864801650304020105000420"),
    "384": bytes.fromhex("3041300d060960864801650304020205000430"),
    "512": bytes.fromhex("3051300d060960864801650304020305000440"),
}


def emsa_pkcs1(msg, b, k):
    t = PKCS1_PREFIX[b] + HASH[b](msg).digest()
    if k < len(t) + 11:
        raise ValueError("modulus too short")
    return b"\0\1" + b"\xff" * (k - len(t) - 3) + b"\0" + t


def mgf1(seed, length, b):
    out = b""
    i = 0
    while len(out) < length:
        out += HASH[b](seed + i.to_bytes(4, "big")).digest()
        i += 1
    return out[:length]


def emsa_pss(msg, b, embits, salt=None):
    h = HASH[b]
    hl = h().digest_size
    emlen = (embits + 7) // 8
    if emlen < 2 * hl + 2:
        raise ValueError("modulus too short")
    salt = os.urandom(hl) if salt is None else salt
    hh = h(b"\0" * 8 + h(msg).digest() + salt).digest()
    db = b"\0" * (emlen - len(salt) - hl - 2) + b"\1" + salt
    mdb = bytearray(x ^ y for x, y in zip(db, mgf1(hh, emlen - hl - 1, b)))
    mdb[0] &= 0xFF >> (8 * emlen - embits)
    return bytes(mdb) + hh + b"\xbc"


def emsa_pss_verify(msg, b, embits, m):
    h = HASH[b]
    hl = h().digest_size
    emlen = (embits + 7) // 8
    if emlen < 2 * hl + 2 or m >> (8 * emlen):
        return False
    em = m.to_bytes(emlen, "big")
    if em[-1] != 0xBC:
        return False
    mdb, hh = em[: emlen - hl - 1], em[emlen - hl - 1:-1]
    if mdb[0] & ~(0xFF >> (8 * emlen - embits)) & 0xFF:
        return False
    db = bytearray(x ^ y for x, y in zip(mdb, mgf1(hh, emlen - hl - 1, b)))
    db[0] &= 0xFF >> (8 * emlen - embits)
    pad = emlen - 2 * hl - 2
    if bytes(db[: pad + 1]) != b"\0" * pad + b"\1":
        return False
    return h(b"\0" * 8 + h(msg).digest() + bytes(db[pad + 1:])).digest() == hh


# ---------------------------------------------------------------- tokens
def jdump(obj):
    return json.dumps(obj, ensure_ascii=False, separators=(",", ":")).encode("utf-8")


def sign_token(header, payload, key, alg=None, header_bytes=None):
    alg = alg or header["alg"]
    msg = b64e(jdump(header) if header_bytes is None else header_bytes) + b"." + b64e(payload)
    sig = b"" if alg == "none" else key.raw_sign(alg, msg)
    return msg + b"." + b64e(sig)


def verify_token(token, key):
    """(header, payload) if `token` (bytes) is a strictly well formed, correctly signed compact JWS; else None."""
    parts = token.split(b".")
    if len(parts) != 3:
        return None
    try:
        header = json.loads(b64d(parts[0]).decode("utf-8"))
        payload = b64d(parts[1])
        sig = b64d(parts[2])
    except (Malformed, ValueError, RecursionError):
        return None
    if not isinstance(header, dict):
        return None
    alg = header.get("alg")
    if alg not in ALGS:
        return None
    if not key.raw_verify(alg, parts[0] + b"." + parts[1], sig):
        return None
    return header, payload


def half_hash(token, alg):
    d = HASH[alg[2:]](token.encode("utf-8")).digest()
    return b64e(d[: len(d) // 2]).decode()


def lenient(segment):
    """Most permissive reading of a base64url segment (foreign characters, padding and trailing bits ignored)."""
    if b"=" in segment:
        segment = segment[: segment.index(b"=")]
    seg = segment.replace(b"+", b"-").replace(b"/", b"_").translate(None, NOT_ALPHA)
    if len(seg) % 4 == 1:
        seg = seg[:-1]
    return b64d(seg)


# Header parameters that change nothing about how the claims of a token are judged.
HEADERS = [{}, {"typ": "JWT"}, {"typ": "jwt"}, {"typ": "at+jwt"}, {"typ": "JOSE"}, {"typ": "application/jwt", "cty": "json"}, {"cty": "JWT"}, {"typ": "secevent+jwt"},
           {"exp": 9999999999, "iat": 1, "nbf": 1, "iss": "h", "sub": "h", "aud": "h", "nonce": "h", "z": 1}, {"exp": 1, "nbf": 9999999999}, {"x": {"y": [1]}},
           {"jku": "https://k.example/jwks"}, {"jwk": {"kty": "oct", "k": "AAAA"}}, {"x5u": "https://k.example/x"}, {"x5c": ["AAAA"]}, {"x5t": "AAAA"}, {"x5t#S256": "AAAA"}, {"x5tS256": "AAAA"}, {"iv": "x", "enc": "A128GCM", "zip": "DEF"},
           {"use": "sig"}, {"key_ops": ["sign", "verify"]}, {"b64": True}, {"url": "https://a.example", "nonce": "n"}, {"alg2": "none"}, {"ver": "1"}]
