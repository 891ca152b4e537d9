"""C29: secrets never leak through responses, errors, output or printed keys."""
import base64
import datetime
import os
import re
import tempfile
import urllib.parse as up

from cryptography.hazmat.primitives import serialization

from vf import keys, leak, refjose as R
from vf import oauth as O
from vf.psi import JsonWebKey, JsonWebKeySet, JsonWebSignature, JsonWebToken, attempt, jwk

RULE = ("Every secret of the workload (client secrets right and wrong, verifiers, codes, tokens, private numbers, symmetric secrets, PEM bodies, passwords) is a registered canary in all its usual encodings. Monitors scan every "
        "response (status line, headers, body, redirect, percent- and base64-decoded), the message chain of every exception, everything logged, warned or printed while the library ran, and the printed form of keys and key sets, for any "
        "12 consecutive characters of a canary that the request in question did not itself issue. Requests are valid ones with up to three faults in credentials, codes, verifiers, URIs, scopes, methods and placement; key operations "
        "cover loading, parsing, generating, dumping, exporting, signing and verifying with faulty data. A case is one request or key operation; distinct ones are counted by its description.")

SUP = ["openid", "a", "b"]
URI = "https://client.example/cb"


def token(rng, n=40):
    return "".join(rng.choice("abcdefghijkmnpqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789") for _ in range(n))


class Lab:
    def __init__(self, c, rng, n):
        self.c, self.rng = c, rng
        self.v = leak.Vault()
        s = self.s = O.Store("L%d" % n)
        for i in range(3):
            s.add(O.User("user-%d" % i))
        self.clients = []
        for i, m in enumerate(["client_secret_basic", "client_secret_post", "none", "client_secret_basic"]):
            sec = None if m == "none" else token(rng, rng.choice([24, 40, 80]))
            if sec:
                self.v.add("secret of client %d" % i, sec)
            cl = O.Client("client-%d" % i, sec, m, SUP, [URI, URI + "?x=1"], ["authorization_code", "refresh_token", "client_credentials"])
            self.clients.append(s.add(cl))
        self.key = rng.choice([lambda: keys.seeded_oct(rng, 48), lambda: keys.seeded_ec(rng, "P-256")])()
        for n_, val in self.key.p.items():
            if n_ in ("k", "d"):
                self.v.add("provider key", val)
        alg = self.key.algs()[0]
        s.keyinfo = {"key": jwk(self.key, kid="kid"), "alg": alg}
        self.p = O.provider(s, SUP, oidc=True, keyset=JsonWebKeySet([s.keyinfo["key"]]))
        self.n = 0
        self.seen_tokens = set()

    def mk_code(self, cl, user, expired=False, method=None):
        rng = self.rng
        code, ver = token(rng, 64), token(rng, 50)
        method = method or rng.choice(["plain", "S256"])
        self.s.put_code(code, cl, user, URI, rng.sample(SUP, rng.randint(1, 3)), ver if method == "plain" else O.s256(ver), method, nonce="n-1",
                        expiration=datetime.datetime(2001, 1, 1) if expired else None)
        self.v.add("authorization code", code)
        self.v.add("code verifier", ver)
        return code, ver

    def wrong(self, what):
        t = token(self.rng, 40)
        self.v.add("presented " + what, t)
        return t

    def judge(self, kind, faults, endpoint, request):
        c, s, v = self.c, self.s, self.v
        mark = s.mark()
        before = set(s.access) | set(s.refresh) | set(s.codes)
        with leak.capture() as out:
            st, rep = O.call(endpoint, request)
        issued = (set(s.access) | set(s.refresh) | set(s.codes)) - before
        detail = dict(kind=kind, faults=faults, url=request.url[:300], body=request._body if hasattr(request, "_body") else None)
        c.case(kind, (kind, tuple(faults), repr(rep)[:80]), sample=(kind, faults, rep))
        texts = []
        if st == "err":
            texts.append(("an exception", leak.exception_text(rep)))
            c.count("exceptions")
        elif isinstance(rep, O.Reply):
            texts.append(("a response", "%s\n%s\n%s" % (rep.status, "\n".join("%s: %s" % kv for kv in rep.headers.items()), rep.body.decode("utf-8", "replace"))))
            c.count("responses")
            c.count("granted" if rep.is_token or "code" in dict(rep.params()) else "refused")
        for t in out.text:
            if t:
                texts.append(("output", t))
                c.count("output-texts")
        for where, t in texts:
            c.count("texts-scanned")
            hit = v.find(t)
            c.check(hit is None, "%s discloses %s" % (where, hit and hit[0]), context=hit and hit[1], text=t, **detail)
            old = self.seen_tokens & set(re.findall(r"[A-Za-z0-9_-]+", up.unquote(t)))
            c.check(not old, "%s contains a token of another request" % where, token=old, text=t, **detail)
        # what was issued just now is from now on somebody's secret
        for t in issued:
            if where_ok(t):
                self.v.add("token issued earlier", t)
            else:
                self.seen_tokens.add(t)
        del s.log[:]

    def authed(self, cl, form, faults):
        """(form, headers, query) with the client's credentials, possibly faulty."""
        rng = self.rng
        q = {}
        f, h = O.client_auth(cl, form)
        for x in faults:
            if x == "secret":
                w = self.wrong("secret")
                if "Authorization" in h:
                    h["Authorization"] = O.basic(cl.id, w)
                else:
                    f["client_id"], f["client_secret"] = cl.id, w
            elif x == "half-secret" and cl.secret:
                h, f = {"Authorization": O.basic(cl.id, cl.secret[:-1])}, {k: y for k, y in f.items() if k != "client_secret"}
            elif x == "scheme" and cl.secret:
                h = {"Authorization": rng.choice(["Bearer ", "Digest ", "Basic", "basic: ", ""]) + O.basic(cl.id, cl.secret)[6:]}
            elif x == "nocolon" and cl.secret:
                h = {"Authorization": "Basic " + base64.b64encode(cl.secret.encode()).decode()}
            elif x == "badb64" and cl.secret:
                h = {"Authorization": O.basic(cl.id, cl.secret)[:-3] + rng.choice(["*", "é", "="])}
            elif x == "two" and cl.secret:
                h = {"Authorization": O.basic(cl.id, cl.secret)}
                f["client_id"], f["client_secret"] = cl.id, cl.secret
            elif x == "url" and cl.secret:
                h, f = {}, {k: y for k, y in f.items() if k != "client_secret"}
                q = {"client_id": cl.id, "client_secret": cl.secret}
            elif x == "other-method" and cl.secret:
                if cl.method == "client_secret_basic":
                    h = {}
                    f["client_id"], f["client_secret"] = cl.id, cl.secret
                else:
                    f.pop("client_secret", None)
                    h = {"Authorization": O.basic(cl.id, cl.secret)}
            elif x == "unknown":
                w = self.wrong("secret")
                f.pop("client_secret", None)
                h = {"Authorization": O.basic("nobody", w)}
            elif x == "latin":
                h = {"Authorization": "Basic " + base64.b64encode(("%s:%s" % (cl.id, (cl.secret or "x") + "\xe9")).encode("latin-1")).decode()}
        return f, h, q

    AUTH = ["secret", "half-secret", "scheme", "nocolon", "badb64", "two", "url", "other-method", "unknown", "latin"]

    def redeem(self):
        rng, s = self.rng, self.s
        cl, user = rng.choice(self.clients), s.users["user-%d" % rng.randrange(3)]
        faults = rng.sample(["verifier", "code", "expired", "owner", "uri", "no-code", "no-verifier", "no-uri", "method", "nouser", "dup"] + self.AUTH, rng.choice([0, 0, 1, 1, 1, 2, 3]))
        code, ver = self.mk_code(self.clients[0] if "owner" in faults else cl, user, "expired" in faults)
        if "method" in faults:
            s.codes[code].code_challenge_method = rng.choice(["s256", None, "S512"])
        if "nouser" in faults:
            s.codes[code].user_id = "gone"
        f = {"grant_type": "authorization_code", "code": code, "redirect_uri": URI, "code_verifier": ver}
        if "verifier" in faults:
            f["code_verifier"] = rng.choice([self.wrong("verifier"), ver[:-1], ver + "x", ver.swapcase(), ver + "é"])
        if "code" in faults:
            f["code"] = rng.choice([self.wrong("code"), code + "x"])
        if "uri" in faults:
            f["redirect_uri"] = rng.choice([URI + "?x=1", "https://evil.example/", URI + "/"])
        for name, k in (("no-code", "code"), ("no-verifier", "code_verifier"), ("no-uri", "redirect_uri")):
            if name in faults:
                f.pop(k, None)
        f, h, q = self.authed(cl, f, faults)
        if "dup" in faults and f.get("code"):
            q = dict(q, code=f["code"], code_verifier=ver)
        self.judge("redeem", faults, self.p.token, O.req(form=f, headers=h, query=q or None))

    def refresh(self):
        rng, s = self.rng, self.s
        cl, user = rng.choice(self.clients), s.users["user-%d" % rng.randrange(3)]
        faults = rng.sample(["token", "expired", "owner", "scope", "no-token", "nouser", "bearer"] + self.AUTH, rng.choice([0, 0, 1, 1, 2, 3]))
        t = token(rng, 50)
        self.v.add("refresh token", t)
        s.put_refresh(t, self.clients[0] if "owner" in faults else cl, user, ["a", "openid"], datetime.datetime(2001, 1, 1) if "expired" in faults else None)
        if "nouser" in faults:
            s.refresh[t].user_id = "gone"
        f = {"grant_type": "refresh_token", "refresh_token": self.wrong("refresh token") if "token" in faults else t}
        if "scope" in faults:
            f["scope"] = rng.choice(["b", "nope", "a b"])
        if "no-token" in faults:
            del f["refresh_token"]
        f, h, q = self.authed(cl, f, faults)
        if "bearer" in faults:
            h = {"Authorization": "Bearer " + t}
        self.judge("refresh", faults, self.p.token, O.req(form=f, headers=h, query=q or None))

    def other(self):
        rng, s = self.rng, self.s
        cl = rng.choice(self.clients)
        faults = rng.sample(["grant", "no-grant", "scope", "empty"] + self.AUTH, rng.choice([0, 1, 1, 2]))
        f = {"grant_type": "client_credentials", "scope": "a"}
        if "grant" in faults:
            f["grant_type"] = rng.choice(["password", "implicit"])
            f["username"], f["password"] = "u", self.wrong("password")
        if "no-grant" in faults:
            f.pop("grant_type", None)
        if "scope" in faults:
            f["scope"] = "nope"
        f, h, q = self.authed(cl, f, faults)
        if "empty" in faults:
            f = {}
        self.judge("other", faults, self.p.token, O.req(form=f, headers=h, query=q or None))

    def revoke(self):
        rng, s = self.rng, self.s
        cl = rng.choice(self.clients)
        faults = rng.sample(["hint", "no-token", "unknown-token"] + self.AUTH, rng.choice([0, 1, 1, 2]))
        t = token(rng, 50)
        self.v.add("revoked token", t)
        if "unknown-token" not in faults:
            s.access[t] = (("client", cl.id), ("user", "user-0"), ["a"])
        f = {"token": t, "token_type_hint": rng.choice(["access_token", "refresh_token"])}
        if "hint" in faults:
            f["token_type_hint"] = "id_token"
        if "no-token" in faults:
            del f["token"]
        f, h, q = self.authed(cl, f, faults)
        self.judge("revoke", faults, self.p.revoke, O.req(form=f, headers=h, query=q or None))

    def authorize(self):
        rng, s = self.rng, self.s
        cl = rng.choice(self.clients)
        faults = rng.sample(["user", "client", "uri", "scope", "challenge", "method", "no-challenge", "type", "no-scope", "secret-too", "no-state"], rng.choice([0, 0, 1, 1, 2, 3]))
        ver = token(rng, 50)
        q = {"response_type": "code", "client_id": cl.id, "redirect_uri": rng.choice(cl.uris), "scope": "a openid", "state": "st-%d" % rng.randrange(99), "code_challenge": ver, "code_challenge_method": "plain"}
        self.v.add("code verifier", ver)
        user = None if "user" in faults else s.users["user-0"]
        for name, k, val in (("client", "client_id", "nobody"), ("uri", "redirect_uri", "https://evil.example/"), ("scope", "scope", "nope"), ("challenge", "code_challenge", ver[:42]), ("method", "code_challenge_method", "S512"), ("type", "response_type", "token")):
            if name in faults:
                q[k] = val
        for name, k in (("no-challenge", "code_challenge"), ("no-scope", "scope"), ("no-state", "state")):
            if name in faults:
                q.pop(k, None)
        h = {}
        if "secret-too" in faults and cl.secret:
            if rng.random() < 0.5:
                q["client_secret"] = cl.secret
            else:
                h = {"Authorization": O.basic(cl.id, cl.secret)}
        self.judge("authorize", faults, self.p.authorize, O.req(query=q, headers=h, user=user))

    def step(self):
        r = self.rng.random()
        (self.redeem if r < 0.4 else self.refresh if r < 0.6 else self.authorize if r < 0.75 else self.revoke if r < 0.88 else self.other)()

    def printed(self):
        c = self.c
        for what in (self.p.config, self.s.keyinfo["key"], self.p.config.keyset, [self.p.config]):
            for text in (repr(what), str(what), format(what)):
                hit = self.v.find(text)
                c.check(hit is None, "the printed form of a %s discloses %s" % (type(what).__name__, hit and hit[0]), text=text)
                c.count("printed")


def where_ok(t):
    # our storage's tokens are short and structured ("AT-name-3-hash", "RT-name-3"); only random ones are canaries
    return len(t) >= 40


# ------------------------------------------------------------------------------------------------- keys
def secrets_of(v, key, tag):
    for name, val in key.p.items():
        if name in ("d", "p", "q", "dp", "dq", "qi", "k") and not (isinstance(val, int) and val.bit_length() < 100):
            v.add("%s of %s" % (name, tag), val)


def scan(c, v, what, fn, *a, ok_value=False, **k):
    """Run one key operation; scan whatever text it produced."""
    with leak.capture() as out:
        st, got = attempt(fn, *a, **k)
    c.count("key-operations")
    c.count("key-ok" if st == "ok" else "key-error")
    texts = [("output", t) for t in out.text if t]
    if st == "err":
        texts.append(("an exception", leak.exception_text(got)))
    elif isinstance(got, (JsonWebKey, JsonWebKeySet)):
        for f in (repr, str, "{}".format, lambda x: "%s" % (x,)):
            texts.append(("the printed form of a key", f(got)))
        inner = got.keys if isinstance(got, JsonWebKeySet) else [getattr(got, "_algorithm", None)]
        texts.append(("the printed form of a key", repr(inner)))
    elif ok_value and isinstance(got, (bytes, str)):
        texts.append(("the result", got))
    elif ok_value:
        texts.append(("the result", repr(got)))
    for where, t in texts:
        c.count("texts-scanned")
        hit = v.find(t)
        c.check(hit is None, "%s discloses %s (%s)" % (where, hit and hit[0], what), context=hit and hit[1], text=t)
    return st, got


def part_keys(c, rng):
    scratch = tempfile.mkdtemp(prefix="vf-c29-")
    try:
        pool = [keys.seeded_ec(rng, crv) for crv in ("P-256", "P-384", "P-521")] + keys.rsa_small() + [keys.seeded_oct(rng, n) for n in (32, 64)]
        for i in range(c.n(140, 4000)):
            key = rng.choice(pool) if i >= len(pool) else pool[i]
            v = leak.Vault()
            secrets_of(v, key, key.kty)
            alg = rng.choice(key.algs())
            full = key.jwk(True, kid="k1", **({"alg": alg} if rng.random() < 0.3 else {}))
            tagged = (key.kty, key.p.get("crv"), i)
            c.case("key:" + key.kty, tagged, sample=tagged)
            st, jk = scan(c, v, "load", JsonWebKey, full)
            if st == "ok":
                scan(c, v, "key set", JsonWebKeySet, [jk])
                msg = JsonWebSignature(b"payload", {"alg": alg, "kid": "k1"})
                st, tok = scan(c, v, "sign", msg.serialize, jk, ok_value=True)
                st, t2 = scan(c, v, "jwt", JsonWebToken({"sub": "x"}, {"alg": alg}).encode, jk, ok_value=True)
                if key.kty != "oct":
                    scan(c, v, "public dump", jk.dump, ok_value=True)
                    scan(c, v, "public PEM", jk.export, True, ok_value=True)
                    pub = JsonWebKey(key.jwk(False, kid="k1"))
                    scan(c, v, "sign with public", msg.serialize, pub)
                    scan(c, v, "private dump of public", pub.dump, False)
                    scan(c, v, "private export of public", pub.export, False)
                    scan(c, v, "key set dump", JsonWebKeySet([jk]).dump, ok_value=True)
                if tok:
                    bad = tok[:-6] + b"AAAAAA"
                    scan(c, v, "verify", JsonWebSignature.deserialize, bad, jk)
                    if key.kty == "oct":
                        # what the signature should have been is for the key holder to know
                        part = R.b64e(R.jdump({"alg": alg, "kid": "k1"})) + b"." + R.b64e(b"payload %d" % i)
                        v.add("the right signature of a refused token", key.raw_sign(alg, part))
                        for sig in (b"", b"\0" * 32, token(rng, 32).encode(), R.b64d(tok.split(b".")[2])):
                            scan(c, v, "forged", JsonWebSignature.deserialize, part + b"." + R.b64e(sig), jk)
                            c.count("forged")
                    scan(c, v, "verify ok", lambda: repr(JsonWebToken.decode(t2, jk)), ok_value=True)
                    scan(c, v, "other algorithm", JsonWebSignature.deserialize, tok, jk, "none")
                    other = JsonWebKey(rng.choice(pool).jwk(True, kid="k2"))
                    scan(c, v, "other key", JsonWebSignature.deserialize, tok, other)
                for h in ({"alg": alg, "kid": "zz"}, {"alg": rng.choice(["HS256", "RS256", "ES256", "ES512"])}):
                    scan(c, v, "refused signing", lambda h=h: JsonWebSignature(b"x", h).serialize(jk), ok_value=True)
                scan(c, v, "wrong use", lambda: JsonWebSignature(b"x", {"alg": alg}).serialize(JsonWebKey(dict(full, use="enc"))), ok_value=True)
            # damaged data still carries the other secrets
            members = [m for m in full if m not in ("kid", "alg")]
            for _ in range(4):
                m = rng.choice(members)
                val = full[m]
                worse = rng.choice([None, "", val[:-1], val[1:], val + "A", val + "é", val + "*", 5, [val], {"v": val}, b"\xff", val.lower(), "A" * len(val), val.encode()])
                if m == "kty":
                    worse = rng.choice(["EC", "RSA", "oct", "OKP", val.lower()])
                scan(c, v, "damaged " + m, JsonWebKey, dict(full, **{m: worse}))
            d = {k: y for k, y in full.items() if k != rng.choice(members)}
            scan(c, v, "missing", JsonWebKey, d)
            scan(c, v, "set without kid", lambda: JsonWebKeySet([JsonWebKey({k: y for k, y in full.items() if k != "kid"})]))
            scan(c, v, "set twice", lambda: JsonWebKeySet([JsonWebKey(full), JsonWebKey(full)]))
            parse_ops(c, rng, v, key, scratch)
    finally:
        for f in os.listdir(scratch):
            os.unlink(os.path.join(scratch, f))
        os.rmdir(scratch)


def parse_ops(c, rng, v, key, scratch):
    password = token(rng, 30).encode()
    v.add("password", password)
    if key.kty == "oct":
        pems = [base64.b64encode(key.p["k"])]
        damaged = pems[0][:-3] + b"*!"
    else:
        st, pem = attempt(jwk(key).export)
        if st != "ok":
            return
        pems = [pem]
        obj = serialization.load_pem_private_key(pem, None, keys.default_backend())
        pems.append(obj.private_bytes(serialization.Encoding.PEM, serialization.PrivateFormat.PKCS8, serialization.BestAvailableEncryption(password)))
        damaged = pem[:len(pem) // 2] + b"\n-----END X-----\n"
    for i, pem in enumerate(pems):
        kty = key.kty
        scan(c, v, "parse", JsonWebKey.parse, pem, kty, False, password if i else None, kid="z")
        scan(c, v, "parse without password", JsonWebKey.parse, pem, kty, False)
        scan(c, v, "parse with wrong password", JsonWebKey.parse, pem, kty, False, b"x" + password)
        scan(c, v, "parse as another type", JsonWebKey.parse, pem, rng.choice(["EC", "RSA", "oct", "OKP"]), False, password if i else None)
        scan(c, v, "parse in another format", JsonWebKey.parse, pem, kty, False, None, rng.choice(["jwk", "xml", "der" if kty != "oct" else "xml"]))
        path = os.path.join(scratch, "key.pem")
        with open(path, "wb") as f:
            f.write(pem)
        scan(c, v, "parse file", JsonWebKey.parse, path, kty, False, password if i else None)
        scan(c, v, "parse public", JsonWebKey.parse, pem, kty, True, password if i else None)
    scan(c, v, "parse damaged", JsonWebKey.parse, damaged, key.kty, False)
    scan(c, v, "parse damaged as text", JsonWebKey.parse, damaged.decode("latin-1"), key.kty, False)
    scan(c, v, "parse with null", JsonWebKey.parse, damaged + b"\0", key.kty, False)


def run(c):
    rng = c.sub_rng("requests")
    # the monitor itself must see what it is there to see
    v = leak.Vault()
    v.add("x", "TheQuickBrownFox1234567890jumps")
    for t in ("error QuickBrownFox123 x", "a=%51uickBrownFox1234567890", base64.b64encode(b"id:TheQuickBrownFox1234567890jumps").decode(), "zz thequickbrownfox12", b"TheQuickBrownFox1234567890jumps".hex()):
        c.check(v.find(t) is not None, "monitor self-test failed", text=t)
    c.check(v.find("The quick brown fox jumps over 1234567890") is None, "monitor self-test failed")
    for n in range(c.n(90, 1500)):
        lab = Lab(c, rng, n)
        for _ in range(rng.choice([15, 40])):
            lab.step()
        lab.printed()
    part_keys(c, c.sub_rng("keys"))
    c.require("forged", 30)
    c.require("responses", 1200)
    c.require("granted", 300)
    c.require("refused", 600)
    c.require("key-error", 1200)
    c.require("key-ok", 1000)
