"""C01: decode acceptance compared with an independent verifier, under mutation, splicing, histories and threads."""
import json
import sys
import threading

from vf import gen, keys, refjose as R
from vf.psi import JsonWebKey, JsonWebSignature, JsonWebToken, JoseError, attempt, jwk

RULE = ("Tokens signed by psion or by the reference are mutated (bit flips, truncation, extension, splices, other keys, other hash/padding, "
        "re-encoding, duplicate members, DER signatures) and decoded in histories and threads; a case is one decode judged by the reference "
        "verifier, non-trivial when the token differs from every token its key holder signed or is decoded after others.")


def expected(token, key):
    """('valid', header, payload) strict; 'lenient' if it verifies under a permissive reading; else None."""
    strict = R.verify_token(token, key)
    if strict is not None:
        return ("valid",) + strict
    parts = token.split(b".")
    if len(parts) == 3:
        try:
            header = json.loads(R.lenient(parts[0]).decode("utf-8"))
            alg = header.get("alg") if isinstance(header, dict) else None
            if alg in R.ALGS:
                sigs = [R.lenient(parts[2])]
                if key.kty == "RSA":
                    # the same number with leading zero octets left out or added
                    sigs.append(sigs[0].lstrip(b"\0").rjust((key.p["n"].bit_length() + 7) // 8, b"\0"))
                if any(key.raw_verify(alg, parts[0] + b"." + parts[1], s) for s in sigs):
                    return ("lenient", header, R.lenient(parts[1]))
        except (ValueError, R.Malformed, RecursionError):
            pass
    return None


def names_none(token):
    try:
        return json.loads(R.lenient(token.split(b".")[0]).decode("utf-8")).get("alg") == "none"
    except Exception:
        return False


class Judge:
    def __init__(self, c):
        self.c = c

    def decode(self, kind, token, key, jk, must=None, as_jwt=False, note="", algorithm=None, spoil=False, **kw):
        c = self.c
        exp = expected(token, key)
        if names_none(token):
            # Unsecured tokens without a pinned algorithm are documented as the caller's risk: pin it.
            algorithm = algorithm or key.algs()[0]
        if as_jwt:
            st, res = attempt(JsonWebToken.decode, token if c.rng.random() < 0.5 else token.decode("latin-1"), jk, algorithm, **kw)
        else:
            st, res = attempt(JsonWebSignature.deserialize, token, jk, algorithm, **kw)
        c.case(kind, (token, key.p.get("tag"), as_jwt, note), sample="%s %s -> %s" % (note, token[:120], st))
        if st == "ok":
            c.count("accepted")
            if exp is None:
                c.fail("a token whose signature does not verify was accepted", kind=kind, token=token, key=key.jwk(), note=note, jwt=as_jwt)
                return st
            c.check(dict(res.header) == {k: v for k, v in exp[1].items() if v is not None}, "decoded header differs from the signed header",
                    kind=kind, token=token, got=dict(res.header), want=exp[1])
            got = dict(res.claims) if as_jwt else res.payload
            want = {k: v for k, v in json.loads(exp[2].decode()).items() if v is not None} if as_jwt else exp[2]
            c.check(got == want, "decoded payload differs from the signed payload", kind=kind, token=token, got=got, want=want, note=note)
            if spoil or c.rng.random() < 0.5:
                # the result is the caller's: what it does to it has no effect on later decodings
                c.count("results-scribbled")
                gen.scribble(res.header)
                gen.scribble(res.claims if as_jwt else res.payload)
        else:
            c.count("refused")
            if exp is not None and exp[0] == "valid" and must is not False:
                c.fail("a correctly signed token was refused", kind=kind, token=token, key=key.jwk(), error=repr(res), note=note)
        if must is False and st == "ok" and exp is not None:
            c.count("oracle-says-valid:" + kind)
        return st


def flip(data, i, bit):
    b = bytearray(data)
    b[i] ^= 1 << bit
    return bytes(b)


def mutations(rng, token, key, alg, others):
    """(kind, token) pairs derived from a valid token."""
    h, p, s = token.split(b".")
    hb, pb, sb = R.b64d(h), R.b64d(p), R.b64d(s)
    j = lambda a, b, d: b".".join([a, b, d])
    E = R.b64e
    # bit flips of decoded parts
    def positions(n, extra):
        pos = {0, 1, n // 2, n - 2, n - 1} | {rng.randrange(n) for _ in range(extra)} if n else set()
        return [i for i in pos if 0 <= i < n]
    for i in positions(len(sb), 24):
        yield "flip-sig", j(h, p, E(flip(sb, i, rng.randrange(8))))
    for i in positions(len(pb), 10) + [i for i in (63, 64, 255, 256, 1023, 4096, 8192, 65535) if i < len(pb)]:
        yield "flip-payload", j(h, E(flip(pb, i, rng.randrange(8))), s)
    for i in positions(len(hb), 10):
        yield "flip-header", j(E(flip(hb, i, rng.randrange(7))), p, s)
    # characters of the encoded parts
    for seg in range(3):
        parts = [h, p, s]
        for _ in range(4):
            if parts[seg]:
                i = rng.randrange(len(parts[seg]))
                b = bytearray(parts[seg]); b[i] = rng.choice(R.ALPHA)
                q = list(parts); q[seg] = bytes(b)
                if q != parts:
                    yield "char-swap", b".".join(q)
        for pad in (b"=", b"==", b"A", b"AA", b"AAAA", b" ", b"\n"):
            q = list(parts); q[seg] = parts[seg] + pad
            yield "append-%d" % seg, b".".join(q)
        for ch in (b" ", b"\n", b"\t", b"\r\n", b"\0", b"=", b"-", b"\x80", b"\"") if seg < 2 else ():   # elsewhere only another spelling of the signature
            for i in {0, rng.randrange(len(parts[seg]) + 1)}:
                q = list(parts); q[seg] = parts[seg][:i] + ch + parts[seg][i:]
                yield "insert-%d" % seg, b".".join(q)
        if parts[seg]:
            # non canonical trailing bits
            last = R.ALPHA.index(parts[seg][-1:])
            for k in (1, 2, 3):
                q = list(parts); q[seg] = parts[seg][:-1] + R.ALPHA[last ^ k:(last ^ k) + 1]
                yield "trailing-bits", b".".join(q)
    # truncation, extension
    for n in sorted({0, 1, 4, 8, 10, 16, 20, 28, 31, 32, 33, 47, 48, 63, 64, len(sb) // 2, len(sb) - 1}):
        if n < len(sb):
            yield "truncate-sig", j(h, p, E(sb[:n]))
            yield "truncate-sig-left", j(h, p, E(sb[-n:] if n else b""))
    for ext in (b"\0", b"\0" * 16, sb, b"\xff"):
        yield "extend-sig", j(h, p, E(sb + ext))
        yield "extend-sig", j(h, p, E(ext + sb))
    yield "zero-sig", j(h, p, E(b"\0" * len(sb)))
    yield "ff-sig", j(h, p, E(b"\xff" * len(sb)))
    yield "reverse-sig", j(h, p, E(sb[::-1]))
    for cut in (1, 2, 16):
        if len(pb) > cut:
            yield "truncate-payload", j(h, E(pb[:-cut]), s)
            yield "truncate-payload", j(h, E(pb[cut:]), s)
    for ext in (b"\0", b" ", b"}", b"\n", pb):
        if ext:
            yield "extend-payload", j(h, E(pb + ext), s)
    yield "empty-payload", j(h, b"", s) if pb else j(h, E(b"x"), s)
    # structure
    for pre in (b" ", b"\n", b"\r\n", b"\t", b"\x0b", b"\xef\xbb\xbf", b"Bearer ", b"\"", b"'", b"<", b"token="):
        yield "wrapped", pre + token
        yield "wrapped", pre + token + pre
    yield "parts", h + b"." + p
    yield "parts", token + b"."
    yield "parts", b"." + token
    yield "parts", j(h, p, s) + b"." + s
    yield "parts", j(p, h, s)
    yield "parts", j(h, s, p)
    yield "parts", h + b".." + s
    yield "parts", token.replace(b".", b"..", 1)
    # header tampering with the original signature
    hd = json.loads(hb.decode())
    for extra in ({"admin": True}, {"typ": "at+jwt"}, {"kid2": "x"}):
        yield "header-extra", j(E(R.jdump({**hd, **extra})), p, s)
    yield "header-respell", j(E(json.dumps(hd, indent=1).encode()), p, s)
    yield "header-dup", j(E(hb.rstrip()[:-1] + b',"alg":"' + alg.encode() + b'"}'), p, s)
    for a in R.ALGS + ["none"]:
        if a != alg:
            yield "alg-swap", j(E(R.jdump({**hd, "alg": a})), p, s)
    for a in ("none", "None", "NONE", "nOnE", ""):
        yield "alg-none", j(E(R.jdump({**hd, "alg": a})), p, b"" if rng.random() < 0.5 else s)
    # signatures by the right key over other bytes, or with another hash or padding
    for msg in (h + p, p, hb + b"." + pb, pb, h + b"." + p + b".", b"." + h + b"." + p, p + b"." + h, h + b"." + p[:-1], h, b"",
                E(R.jdump(hd)) + b"." + p if R.jdump(hd) != hb else h + b":" + p, h + b"." + p + b"=", (h + b"." + p)[:64], (h + b"." + p).lower()):
        if msg != h + b"." + p:
            yield "sign-other-bytes", j(h, p, E(key.raw_sign(alg, msg)))
    msg = h + b"." + p
    for a in key.algs():
        if a != alg:
            yield "sign-other-alg", j(h, p, E(key.raw_sign(a, msg)))
    if alg[:2] == "ES":
        size = len(sb) // 2
        r, t = int.from_bytes(sb[:size], "big"), int.from_bytes(sb[size:], "big")
        from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature
        yield "der-sig", j(h, p, E(encode_dss_signature(r, t)))
        for z in (b"\0", b"\0\0", b"\0" * size):   # the same numbers, wider
            yield "wide-rs", j(h, p, E(sb[:size] + z + sb[size:]))
            yield "wide-rs", j(h, p, E(z + sb))
            yield "wide-rs", j(h, p, E(z + sb[:size] + z + sb[size:]))
        for cut in range(1, 4):      # the same numbers, without their leading zero octets
            if not any(sb[size:size + cut]):
                yield "short-rs", j(h, p, E(sb[:size] + sb[size + cut:]))
            if not any(sb[:cut]):
                yield "short-rs", j(h, p, E(sb[cut:]))
                yield "short-rs", j(h, p, E(sb[cut:size] + sb[size:].lstrip(b"\0")))
        yield "swap-rs", j(h, p, E(sb[size:] + sb[:size]))
        yield "r0", j(h, p, E(b"\0" * size + sb[size:]))
        yield "s0", j(h, p, E(sb[:size] + b"\0" * size))
        yield "one-one", j(h, p, E((1).to_bytes(size, "big") * 2))
    if alg[:2] in ("RS", "PS"):
        n = key.p["n"]
        k = (n.bit_length() + 7) // 8
        i = int.from_bytes(sb, "big")
        for v in (0, 1, n - 1, n, n - i, i + n):
            if v != i and v.bit_length() <= 8 * (k + 1):
                yield "rsa-number", j(h, p, E(v.to_bytes(k if v.bit_length() <= 8 * k else k + 1, "big")))
        b = alg[2:]
        if alg[:2] == "PS":
            bits = n.bit_length()
            for sl in (0, 8, 20, (bits - 1 + 7) // 8 - R.HASH[b]().digest_size - 2):
                if sl != R.HASH[b]().digest_size:
                    em = R.emsa_pss(msg, b, bits - 1, b"s" * sl) if sl < 200 else None
                    if em:
                        yield "pss-salt", j(h, p, E(key.rsa_private(int.from_bytes(em, "big")).to_bytes(k, "big")))
        else:
            dg = R.HASH[b](msg).digest()
            for em in (b"\0\1" + b"\xff" * 8 + b"\0" + R.PKCS1_PREFIX[b] + dg + b"\0" * (k - 11 - len(R.PKCS1_PREFIX[b]) - len(dg)),
                       b"\0\1" + b"\xff" * (k - 3 - len(dg)) + b"\0" + dg,
                       b"\0\2" + b"\xff" * (k - 3 - len(R.PKCS1_PREFIX[b]) - len(dg)) + b"\0" + R.PKCS1_PREFIX[b] + dg):
                yield "pkcs1-form", j(h, p, E(key.rsa_private(int.from_bytes(em, "big")).to_bytes(k, "big")))
    if alg[:2] == "HS":
        k0 = key.p["k"]
        for kk in (b"", k0[:-1], k0 + b"\1", R.b64e(k0), k0[::-1], b"\0" * len(k0)):
            if kk.rstrip(b"\0") != k0.rstrip(b"\0") or len(k0) > 64:
                if not (len(kk) <= 64 and len(k0) <= 64 and kk.ljust(64, b"\0") == k0.ljust(64, b"\0")):
                    yield "hmac-other-key", j(h, p, E(R.Key("oct", k=kk).raw_sign(alg, msg)))
        import hashlib
        yield "plain-hash", j(h, p, E(R.HASH[alg[2:]](msg).digest()))
        yield "prefix-hash", j(h, p, E(R.HASH[alg[2:]](k0 + msg).digest()))
    # other keys
    for o in others:
        if alg in o.algs():
            yield "other-key", j(h, p, E(o.raw_sign(alg, msg)))
    if key.kty != "oct":
        for secret in (keys.pem(key, public=True), keys.pem(key, public=True).strip(), R.jdump(key.jwk(False)), b"", key.jwk(False).get("n", key.jwk(False).get("x")).encode()):
            for a in ("HS256", "HS512"):
                hh = E(R.jdump({**hd, "alg": a}))
                yield "public-key-as-secret", j(hh, p, E(R.Key("oct", k=secret).raw_sign(a, hh + b"." + p)))


def make_payload(rng, jwt):
    if jwt:
        return R.jdump({"sub": gen.text(rng, 1, 10, gen.ASCII), "n": rng.randrange(1000), "role": rng.choice(["user", "admin"]), "u": gen.uni_text(rng, 0, 8), "w": rng.choice(["e\u0301", "\u212b", "\ufb01", "\u00e9", "\u1e9b\u0323", " \u00a0", "\u200b"]), "groups": [gen.text(rng, 1, 4), {"a": [1, rng.randrange(9)]}]})
    return gen.rbytes(rng, rng.choice([0, 1, 2, 3, 20, 100, rng.randrange(400), rng.choice([2000, 5000, 70000])]))


def handed_out(c, J):
    """The same token decoded again and again while every result is spoiled by its receiver."""
    rng = c.sub_rng("handed-out")
    for i in range(c.n(40, 400)):
        alg = rng.choice(["HS256", "ES256", "RS256"])
        key = keys.key_for(alg, rng)
        jk = jwk(key)
        tok = R.sign_token({"alg": alg, "x": [1, {"y": [2]}]}, make_payload(rng, True), key)
        for _ in range(3):
            for as_jwt in (True, False):
                J.decode("handed-out", tok, key, jk, as_jwt=as_jwt, note=str(i), spoil=True)


def run(c):
    rng = c.rng
    J = Judge(c)
    handed_out(c, J)
    rounds = c.n(2, 20)
    store = {}
    for rnd in range(rounds):
        for alg in R.ALGS:
            key = keys.key_for(alg, rng)
            others = [keys.key_for(alg, rng) for _ in range(2)]
            others = [o for o in others if o.p != key.p]
            jk = jwk(key)
            jpub = jwk(key, private=False) if key.kty != "oct" else jk
            toks = []
            for i in range(3):
                as_jwt = i == 1
                header = {"alg": alg}
                if rng.random() < 0.7:
                    header["typ"] = "JWT"
                if rng.random() < 0.4:
                    header["x"] = gen.json_value(rng, 2)
                payload = make_payload(rng, as_jwt)
                if rng.random() < 0.5:
                    tok = JsonWebSignature(payload, dict(header)).serialize(jk)
                    c.check(R.verify_token(tok, key) is not None, "psion produced a token the reference does not verify", token=tok, alg=alg)
                else:
                    hb = json.dumps(header, indent=rng.choice([None, 1, 2])).encode()
                    tok = R.sign_token(header, payload, key, header_bytes=hb)
                toks.append((tok, as_jwt))
            store.setdefault(alg, []).append((key, jk, toks[0][0]))
            for tok, as_jwt in toks:
                J.decode("genuine", tok, key, jpub, as_jwt=as_jwt)
                J.decode("genuine-again", tok, key, jk, as_jwt=as_jwt)
                muts = list(mutations(rng, tok, key, alg, others))
                for n, (kind, m) in enumerate(muts):
                    mode = rng.random()
                    if mode < 0.25:
                        # an unvalidated look at the token must not make it trusted
                        attempt(JsonWebSignature.deserialize, m, jk, None, False)
                        c.count("peeked")
                    J.decode(kind, m, key, jpub if mode < 0.6 else jk, must=False, as_jwt=as_jwt and rng.random() < 0.7)
                    if n % 9 == 0:
                        J.decode("forged-again", m, key, jk, must=False, as_jwt=as_jwt)
                    if n % 10 == 0:
                        J.decode("genuine-after-forged", tok, key, jk, as_jwt=as_jwt)
            # splices of three tokens of the same key
            for a in range(3):
                for b in range(3):
                    for d in range(3):
                        t = b".".join([toks[a][0].split(b".")[0], toks[b][0].split(b".")[1], toks[d][0].split(b".")[2]])
                        J.decode("splice", t, key, jk, must=False)
            # same tokens under other keys, before and after success, with and without equal key IDs
            for o in others:
                jo = jwk(o, kid="shared")
                jks = jwk(key, kid="shared")
                tk = R.sign_token({"alg": alg, "kid": "shared"}, b'{"a":1}', key)
                J.decode("wrong-key", tk, o, jo, must=False)
                J.decode("genuine", tk, key, jks)
                J.decode("wrong-key-after-success", tk, o, jo, must=False)
                J.decode("genuine", tk, key, jks)
                J.decode("wrong-key-after-success", toks[0][0], o, jwk(o), must=False)
                J.decode("other-token-same-sig", b".".join(tk.split(b".")[:1] + [R.b64e(b'{"a":2}')] + tk.split(b".")[2:]), key, jks, must=False)
    # EC signatures with leading zero octets
    for alg in ("ES256", "ES384", "ES512"):
        key = keys.key_for(alg, rng)
        jk, size, found = jwk(key), {"ES256": 32, "ES384": 48, "ES512": 66}[alg], 0
        for i in range(c.n(4000, 8000)):
            tok = R.sign_token({"alg": alg}, b'{"i":%d}' % i, key)
            sb = R.b64d(tok.split(b".")[2])
            if sb[0] and sb[size]:
                continue
            J.decode("genuine", tok, key, jk)
            for kind, m in mutations(rng, tok, key, alg, []):
                if kind == "short-rs":
                    J.decode(kind, m, key, jk, must=False)
            found += 1
            if found >= 6:
                break
    # two tokens of the same header; long history, then replayed parts
    key = keys.seeded_oct(rng, 32)
    jk = jwk(key)
    hist = []
    for i in range(c.n(1200, 12000)):
        tok = R.sign_token({"alg": "HS256"}, b"payload %d" % i, key)
        J.decode("history", tok, key, jk)
        hist.append(tok.split(b"."))
        if i % 3 == 2:
            a, b = rng.choice(hist), rng.choice(hist[-5:])
            if a is not b:
                J.decode("history-splice", b".".join([a[0], a[1], b[2]]), key, jk, must=False)
                J.decode("history-splice", b".".join([a[0], R.b64e(b"evil %d" % i), a[2]]), key, jk, must=False)
    near_keys(c, J)
    churn(c, J)
    threads(c, store)
    for kind in ("genuine", "flip-sig", "flip-payload", "flip-header", "splice", "other-key", "wrong-key-after-success", "history-splice", "public-key-as-secret", "truncate-sig", "thread", "churn-stale", "churn-new", "near-key", "near-key-own", "short-rs"):
        c.require("cases:" + kind, 10)
    c.require("accepted", 100)
    c.require("refused", 1000)


def near_keys(c, J):
    """Keys that differ from the verifying key in one octet, one sign or one exponent are other keys."""
    rng = c.sub_rng("near-keys")
    def both(kind, alg, key, other):
        if key.kty == "oct" and all(len(k.p["k"]) <= R.HASH[alg[2:]]().block_size for k in (key, other)) \
                and key.p["k"].rstrip(b"\0") == other.p["k"].rstrip(b"\0"):
            return   # HMAC itself pads with zero octets
        for a, b in ((key, other), (other, key)):
            ja, jb = jwk(a), jwk(b)
            ta = R.sign_token({"alg": alg}, b'{"near":1}', a)
            mine = JsonWebSignature(b'{"near":2}', {"alg": alg}).serialize(ja)
            for t in (ta, mine):
                J.decode("near-key-own", t, a, ja, note=kind, as_jwt=rng.random() < 0.5)
                J.decode("near-key", t, b, jb, must=False, note=kind)
    for alg in ("HS256", "HS384", "HS512"):
        for size in (1, 2, 16, 31, 32, 33, 48, 63, 64, 65, 72, 100, 127, 128, 129, 192, 256, 257, 512, 1024, 1025, 3000):
            k0 = gen.rbytes(rng, size)
            key = keys.oct_key(k0)
            for pos in sorted({0, size - 1, size // 2, rng.randrange(size)} | {p for p in (16, 31, 32, 63, 64, 127, 128, 255, 256) if p < size}):
                both("octet %d of %d" % (pos, size), alg, key, keys.oct_key(k0[:pos] + bytes([k0[pos] ^ (1 << rng.randrange(8))]) + k0[pos + 1:]))
            for k1 in (k0 + b"\n", b"\n" + k0, k0 + b" ", k0 + b"=", k0 + b"\0", b"\0" + k0, k0[1:], k0[:-1], k0 * 2, k0.swapcase()):
                if k1 and k1 != k0:
                    both("edge of %d" % size, alg, key, keys.oct_key(k1))
    for alg in ("ES256", "ES384", "ES512"):
        crv = R.ALG_CURVE[alg]
        for _ in range(c.n(3, 40)):
            key = keys.seeded_ec(rng, crv)
            both("negated point", alg, key, keys.ec_key(crv, keys.ORDER[crv] - key.p["d"]))
            both("next scalar", alg, key, keys.ec_key(crv, key.p["d"] % (keys.ORDER[crv] - 2) + 1))


def churn(c, J):
    """Key objects come and go (their identities are reused, their names stay): a token of a retired key stays refused under its successor."""
    rng = c.sub_rng("churn")
    pool = {alg: [keys.key_for(alg, rng) for _ in range(4)] for alg in ("RS256", "ES256", "PS384")}
    pool["HS256"] = [keys.seeded_oct(rng, 32) for _ in range(4)]
    pool["HS512"] = [keys.seeded_oct(rng, 64) for _ in range(4)]
    for alg, ks in pool.items():
        ks = list({json.dumps(k.jwk(), sort_keys=True): k for k in ks}.values())
        signed = [R.sign_token({"alg": alg}, b'{"churn":%d}' % i, k) for i, k in enumerate(ks)]
        named = [R.sign_token({"alg": alg, "kid": "k"}, b'{"churn":%d}' % i, k) for i, k in enumerate(ks)]
        for i in range(c.n(40, 600)):
            a = rng.randrange(len(ks))
            b = rng.choice([x for x in range(len(ks)) if x != a])
            toks, kid = (named, "k") if rng.random() < 0.5 else (signed, None)
            if rng.random() < 0.5:   # the same object is replaced under the same variable
                jk = jwk(ks[a], kid=kid)
                was = id(jk)
                J.decode("churn-new", toks[a], ks[a], jk)
                jk = None
                jk = jwk(ks[b], kid=kid)
                c.count("identity-reused", int(id(jk) == was))
            else:                    # many at once, dropped together
                group = [jwk(ks[a], kid=kid) for _ in range(8)]
                ids = {id(x) for x in group}
                for x in group:
                    attempt(JsonWebSignature.deserialize, toks[a], x)
                del x, group
                jk = [jwk(ks[b], kid=kid) for _ in range(8)]
                c.count("identity-reused", sum(id(x) in ids for x in jk))
                for x in jk[1:]:
                    J.decode("churn-stale", toks[a], ks[b], x, must=False, note=str(i))
                jk = jk[0]
            J.decode("churn-stale", toks[a], ks[b], jk, must=False, note=str(i))
            J.decode("churn-new", toks[b], ks[b], jk)


def threads(c, store):
    """Concurrent decodes of good and bad tokens over shared key objects."""
    rng = c.sub_rng("threads")
    work = []
    for alg, entries in store.items():
        for key, jk, tok in entries[:2]:
            h, p, s = tok.split(b".")
            sb, pb = R.b64d(s), R.b64d(p)
            bad = [b".".join([h, p, R.b64e(flip(sb, rng.randrange(len(sb)), 0))]), b".".join([h, R.b64e(pb + b"!"), s])]
            work.append((key, jk, tok, True))
            work += [(key, jk, b, False) for b in bad]
    per = c.n(400, 6000)
    results = []
    lock = threading.Lock()
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    barrier = threading.Barrier(6)

    def worker(i):
        r = c.sub_rng("w", i)
        out = []
        barrier.wait()
        for _ in range(per):
            key, jk, tok, good = r.choice(work)
            st, res = attempt(JsonWebSignature.deserialize, tok, jk)
            pay = R.b64d(tok.split(b".")[1])
            out.append((tok, good, st, st == "ok" and res.payload == pay, repr(res) if st == "err" else None))
        with lock:
            results.extend(out)

    ts = [threading.Thread(target=worker, args=(i,)) for i in range(6)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    sys.setswitchinterval(old)
    for tok, good, st, same, err in results:
        c.case("thread", ("thread", tok, good))
        if good:
            c.check(st == "ok" and same, "a genuine token was refused or altered under concurrent decoding", token=tok, error=err)
        else:
            c.check(st == "err", "a forged token was accepted under concurrent decoding", token=tok)
