"""C07: keys survive every chain of dump/load/export/parse/key set conversions; generated keys are valid, fresh and of the requested kind."""
import base64
import json
import os
import pathlib
import shutil
import tempfile

from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import serialization

from vf import gen, keys, keyview as V, refjose as R
from vf.psi import JsonWebKey, JsonWebKeySet, attempt, jwk

SCALE = 3
DEEP = 4
RULE = ("Random walks over conversions (dump/load, JSON, PEM/PKCS#8/encrypted export and parse from bytes and files, key sets, public projection) starting from "
        "corpus keys with special octet patterns, seeded keys and secrets; after every step the numbers, extra parameters, PEM and signatures of the copy are "
        "compared with the independently known key. A case is one conversion step; distinct by (key, step, parameters).")

ENC = serialization.Encoding.PEM


def clean(d):
    return {k: v for k, v in d.items() if v is not None}


def extras_for(rng, key, i):
    out = {}
    if rng.random() < 0.7:
        out["kid"] = rng.choice(["k%d" % i, "ключ-%d" % i, gen.text(rng, 1, 8, gen.ASCII) + str(i)])
    if rng.random() < 0.4:
        out["use"] = "sig"
    if rng.random() < 0.4:
        out["alg"] = rng.choice(key.algs())
    if rng.random() < 0.3:
        out["key_ops"] = rng.choice([["sign", "verify"], ["verify", "sign"]])
    if rng.random() < 0.3:
        out["x5c"] = ["MIIB", "MIIC"]
    if rng.random() < 0.3:
        out["x5u"] = "https://example.com/é?a=b"
    own = set(key.jwk(True)) | {"kty", "kid", "use", "alg", "key_ops", "x5c", "x5u", "x5t", "x5t#S256"}
    alien = [x for x in ("crv", "x", "y", "d", "k", "n", "e", "p", "q", "dp", "dq", "qi", "a", "t", "iat", "exp", "nbf", "ext", "kid2", "Kid", "data", "_x", "pub", "keys") if x not in own]
    for _ in range(rng.choice([0, 0, 1, 3])):
        # names of other key types' parameters, and unregistered ones, are only extra data
        name = rng.choice(alien) if rng.random() < 0.4 else "x-" + gen.uni_text(rng, 0, 5)
        v = gen.json_value(rng, 2)
        if v is not None:
            out[name] = v
    return out


class Walk:
    def __init__(self, c, scratch):
        self.c = c
        self.rng = c.rng
        self.scratch = scratch
        self.files = 0

    def file(self, data):
        self.files += 1
        name = os.path.join(self.scratch, "key %d.pem" % self.files)
        with open(name, "wb") as f:
            f.write(data)
        return self.rng.choice([name, pathlib.Path(name), name.encode(), os.path.basename(name)])

    def set_aside(self, i):
        k = keys.seeded_oct(self.rng)
        return jwk(k, kid="other-%d" % i)

    # each step: (jk, private, extras) -> (name, jk, private, extras)
    def step(self, jk, key, private, extras):
        rng, kty = self.rng, key.kty
        fam = {"EC": "EC", "RSA": "RSA", "oct": "oct"}[kty]
        choices = ["load", "json", "keyset", "load-extra"]
        if kty == "oct":
            choices += ["b64", "b64-file", "b64-lines", "raw", "raw-file"]
        else:
            choices += ["pem-public", "public-file", "load-public", "keyset-public"]
            if private:
                choices += ["pem", "pem-file", "pkcs8", "encrypted", "encrypted-file", "pem-as-public", "decorated", "load"] * 2
        name = rng.choice(choices)
        sec = private or kty == "oct"
        opt = extras_for(rng, key, rng.randrange(100)) if rng.random() < 0.5 else dict(extras)
        if name == "load":
            return name, JsonWebKey(V.dump(jk, not sec)), private, extras
        if name == "load-extra":
            d = dict(V.dump(jk, not sec), custom="added", nothing=None)
            return name, JsonWebKey(d), private, dict(extras, custom="added")
        if name == "json":
            return name, JsonWebKey(json.loads(json.dumps(V.dump(jk, not sec)))), private, extras
        if name in ("keyset", "keyset-public"):
            e = dict(extras)
            e.setdefault("kid", "added-kid")
            jk2 = JsonWebKey(dict(V.dump(jk, not sec), kid=e["kid"]))
            others = [self.set_aside(i) for i in range(rng.randrange(0, 3))]
            members = others + [jk2]
            rng.shuffle(members)
            ks = JsonWebKeySet(members)
            public = name == "keyset-public"
            if public or not sec:
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    raw = ks.dump(True)
            else:
                raw = ks.dump(False)
            self.c.check(list(raw) == ["keys"] and len(raw["keys"]) == len(members), "a key set dump does not list its keys", got=raw)
            self.c.check([k.get("kid") for k in raw["keys"]] == [m.data["kid"] for m in members], "a key set dump lists other keys", got=raw)
            ks2 = ks.load(json.loads(json.dumps(raw)))
            return name, ks2.get_key(e["kid"]), private and not public, e
        parse = lambda data, public=False, pw=None, fmt="pem": JsonWebKey.parse(data, fam, public, pw, fmt, **opt)
        if name == "load-public":
            return name, JsonWebKey(V.dump(jk, True)), False, extras
        if name == "pem":
            return name, parse(V.export(jk)), True, opt
        if name == "pem-file":
            return name, parse(self.file(V.export(jk))), True, opt
        if name == "decorated":
            p = V.export(jk)
            p = rng.choice([p.replace(b"\n", b"\r\n"), p.rstrip(), b"\n" + p + b"\n\n", b"Bag Attributes: PUBLIC\n" + p, p + b"the PUBLIC part is elsewhere\n"])
            return name, parse(p), True, opt
        if name in ("pkcs8", "encrypted", "encrypted-file"):
            k = serialization.load_pem_private_key(V.export(jk), None, default_backend())
            if name == "pkcs8":
                return name, parse(k.private_bytes(ENC, serialization.PrivateFormat.PKCS8, serialization.NoEncryption())), True, opt
            pw = rng.choice([b"password", b"\xc3\xa9 space", b"x" * 60, b" lead", b"trail ", b"line\n", b"\tt\t", b"UPPER lower", b"0", b"\xff\xfe\x80", b"p" * 500, b"a\x00b", b"\"q\"", b"=", b"cGFzcw=="])
            f = rng.choice([serialization.PrivateFormat.PKCS8, serialization.PrivateFormat.TraditionalOpenSSL])
            data = k.private_bytes(ENC, f, serialization.BestAvailableEncryption(pw))
            return name, parse(data if name == "encrypted" else self.file(data), False, pw), True, opt
        if name == "pem-as-public":
            return name, parse(V.export(jk), True), False, opt
        if name == "pem-public":
            p = V.export(jk, True)
            if rng.random() < 0.3:
                p = b"# not PRIVATE\n" + p
            return name, parse(p, True), False, opt
        if name == "public-file":
            return name, parse(self.file(V.export(jk, True)), True), False, opt
        if name == "b64":
            return name, parse(V.export(jk)), private, opt
        if name == "b64-file":
            return name, parse(self.file(V.export(jk)), rng.random() < 0.5), private, opt
        if name == "b64-lines":
            return name, parse(self.file(base64.encodebytes(key.p["k"]))), private, opt
        if name == "raw":
            return name, parse(key.p["k"], fmt="der"), private, opt
        if name == "raw-file":
            return name, parse(self.file(key.p["k"]), fmt="der"), private, opt
        raise AssertionError(name)

    def walk(self, key, steps, private=True):
        c, rng = self.c, self.rng
        extras = extras_for(rng, key, 0)
        jk = JsonWebKey(key.jwk(private, **extras))
        first = jk
        trail = ["load"]
        V.check_state(c, jk, key, private, extras, "initial")
        for _ in range(steps):
            before = V.dump(jk, key.kty != "oct" and not private)
            name, new, priv2, ex2 = self.step(jk, key, private, extras)
            trail.append(name)
            c.count("step:%s:%s" % (key.kty, name))
            c.case("step:" + name, (key.kty, R.b64e(repr(sorted(key.p.items(), key=str)).encode())[:60], len(self.c.seen), tuple(trail)), sample="%r %s" % (key, trail))
            c.check(V.dump(jk, key.kty != "oct" and not private) == before, "a conversion modified its source key", trail=trail)
            if not c.check(isinstance(new, JsonWebKey), "a conversion gave no key", got=new, trail=trail):
                return
            V.check_state(c, new, key, priv2, ex2, "->".join(trail), original=None if first.data.get("alg") or first.data.get("kid") else first)
            jk, private, extras = new, priv2, ex2


def generated(c):
    rng = c.rng
    seen = set()

    def fresh(v, what):
        c.check(v not in seen, "a generated key repeats", what=what)
        seen.add(v)

    # EC
    for crv in R.CURVES:
        for i in range(c.n(25, 400)):
            extra = rng.choice([{}, {"kid": "g%d" % i, "use": "sig"}])
            jk = JsonWebKey.generate("EC", crv, **extra)
            d = jk.dump(False)
            k = keys.ec_key(crv, R.b2i(d["d"]))
            c.case("generate-ec", (crv, d["d"]), sample=str(d))
            c.check(d.get("crv") == crv, "generated key is on another curve", want=crv, got=d)
            V.check_state(c, jk, k, True, extra, "generated", pem=i % 5 == 0)
            fresh(d["d"], crv)
    # RSA
    for size in [512, 768, 1024, 1024, 1030, 2048, None] + ([1536, 3072, 4096] if c.thorough else []):
        for i in range(c.n(2, 8) if size != 512 else c.n(10, 60)):
            jk = JsonWebKey.generate("RSA", size) if size else JsonWebKey.generate("RSA", kid="default")
            d = jk.dump(False)
            p = {x: R.b2i(d[x]) for x in ("n", "e") + V.RSA_PRIV}
            c.case("generate-rsa", (size, d["n"]), sample="RSA %s n=%s" % (size, d["n"]))
            c.check(p["n"].bit_length() == (size or 2048), "generated RSA key has another size", want=size, got=p["n"].bit_length())
            ok = (p["p"] * p["q"] == p["n"] and p["p"] > 1 and p["q"] > 1 and p["d"] * p["e"] % (p["p"] - 1) == 1 and p["d"] * p["e"] % (p["q"] - 1) == 1
                  and p["dp"] == p["d"] % (p["p"] - 1) and p["dq"] == p["d"] % (p["q"] - 1) and p["qi"] * p["q"] % p["p"] == 1 and p["e"] > 2)
            c.check(ok, "generated RSA numbers are inconsistent", numbers=p)
            V.check_state(c, jk, R.Key("RSA", tag="gen%s" % size, **p), True, {} if size else {"kid": "default"}, "generated", sign=(size or 2048) >= 1024)
            for x in ("n", "p", "q", "d"):
                fresh((x, p[x]), size)
    # secrets
    for size in [32, 33, 48, 64, 65, 100, 256, None] * c.n(4, 60) + [257, 512, 513, 1000, 1024, 1025, 4096, 5000] * c.n(1, 5):
        jk = JsonWebKey.generate("oct", size) if size else JsonWebKey.generate("oct")
        d = jk.dump(False)
        s = R.b64d(d["k"].encode())
        c.case("generate-oct", (size, s), sample="oct %s" % size)
        c.check(len(s) == size if size else len(s) >= 32, "generated secret has another size", want=size, got=len(s))
        V.check_state(c, jk, keys.oct_key(s), True, {}, "generated")
        fresh(s, size)
    c.count("generated-keys", len(seen))


def run(c):
    rng = c.rng
    scratch = tempfile.mkdtemp(prefix="vf-c07-")
    cwd = os.getcwd()
    try:
        os.chdir(scratch)
        w = Walk(c, scratch)
        # corpus keys: special octet patterns
        for key in keys.corpus_ec():
            w.walk(key, c.n(6, 40))
        for _ in range(c.n(60, 1500)):
            w.walk(keys.seeded_ec(rng, rng.choice(list(R.CURVES))), rng.randrange(2, 7))
        for key in keys.corpus_rsa():
            w.walk(key, c.n(5, 30))
        for key in keys.corpus_rsa(2100):
            w.walk(key, 3, private=False)
        for key in keys.corpus_ec():
            w.walk(key, 3, private=False)
        for s in keys.SPECIAL_SECRETS:
            w.walk(keys.oct_key(s), c.n(6, 30))
        # secrets with octets that mean something in text files
        for mid in (b"\r\n", b"\n", b"\r", b"\n\n", b"\0", b"\xef\xbb\xbf", b"\xff\xfe", b"\x1a", b"-----", b" ", b"\t", b"=", b"#", b"\\n", b"%0A"):
            for s in (b"a" * 20 + mid + b"b" * 20, mid + b"c" * 32, b"d" * 32 + mid, mid * 20):
                for _ in range(3):
                    w.walk(keys.oct_key(s), 4)
        # secrets of every length and first/last octet
        for n in range(1, c.n(140, 400)):
            w.walk(keys.seeded_oct(rng, n), 3)
        for b in range(256):
            w.walk(keys.oct_key(bytes([b]) * 3 + gen.rbytes(rng, rng.randrange(1, 40)) + bytes([b])), 1)
            w.walk(keys.oct_key(gen.rbytes(rng, rng.randrange(1, 90)) + bytes([b]) * rng.choice([2, 3, 5, 16, 64])), 1)
        # partial private RSA keys are completed to the same key
        for key in keys.corpus_rsa(2100):
            for missing in (("p", "q", "dp", "dq", "qi"), ("dp", "dq", "qi"), ("qi",), ("dp",), ("dq",)):
                d = {k: v for k, v in key.jwk(True).items() if k not in missing}
                st, jk = attempt(JsonWebKey, d)
                c.case("partial-rsa", (key.p["n"], missing))
                if c.check(st == "ok", "an RSA private key without optional parameters was refused", missing=missing, error=repr(jk)):
                    got = {x: R.b2i(v) for x, v in jk.dump(False).items() if x in ("n", "e", "d", "p", "q", "dp", "dq", "qi")}
                    c.check(got["n"] == key.p["n"] and got["d"] == key.p["d"] and {got["p"], got["q"]} == {key.p["p"], key.p["q"]}
                            and got["qi"] * got["q"] % got["p"] == 1 and got["dp"] == got["d"] % (got["p"] - 1) and got["dq"] == got["d"] % (got["q"] - 1),
                            "a completed RSA key is another key", missing=missing, got=got)
        generated(c)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    for kty, names in {"EC": ["pem", "pem-file", "pkcs8", "encrypted", "keyset", "keyset-public", "pem-public", "load", "json", "pem-as-public"],
                       "RSA": ["pem", "load", "keyset"], "oct": ["b64", "raw", "b64-file", "raw-file", "keyset", "load"]}.items():
        for n in names:
            c.require("step:%s:%s" % (kty, n), 1)
    c.require("state-checks", 500)
