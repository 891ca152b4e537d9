"""C30: nothing accumulates in the library while it works."""
import asyncio
import gc
import sys
import warnings

from vf import keys, refjose as R, sched
from vf import oauth as O
from vf.psi import JsonWebKey, JsonWebKeySet, JsonWebSignature, JsonWebToken, JsonWebTokenClaims, attempt, jwk
from psion import webtools as T
from psion.oidc import IDToken

RULE = ("Each kind of operation (requests to every endpoint, granted, refused for each reason, failing in storage or cancelled; signing, verifying, refusing tokens; loading, parsing, dumping keys; the encoding helpers) is repeated in equal "
        "rounds with values never used before, on a storage that forgets everything after each request. After each round the interpreter's allocated blocks and live objects are read with the collector run. Retention is growth in every round, "
        "without end: on until it exceeds 12000 blocks or objects, more than the fixed-size caches of the interpreter hold. A case is one operation; distinct ones are counted by kind and serial number.")

SUP = ["openid", "a", "b"]
URI = "https://client.example/cb"


class Requests:
    """One provider; the storage is emptied after each request."""

    def __init__(self, c, rng, oidc=True):
        self.rng = rng
        s = self.s = O.Store("m")
        self.user = s.add(O.User("user"))
        self.basic = s.add(O.Client("basic", "secret", "client_secret_basic", SUP, [URI], ["authorization_code", "refresh_token", "client_credentials"]))
        self.post = s.add(O.Client("post", "secret", "client_secret_post", SUP, [URI], ["authorization_code", "refresh_token"]))
        self.none = s.add(O.Client("none", None, "none", SUP, [URI], ["authorization_code"]))
        k = keys.seeded_oct(rng, 48)
        s.keyinfo = {"key": jwk(k, kid="kid"), "alg": "HS256"}
        s.userinfo = lambda user, scopes: {"sub": user.id}
        self.p = O.provider(s, SUP, oidc=oidc)
        self.i = 0

    def done(self):
        s = self.s
        del s.log[:], s.revoked[:]
        s.codes.clear(), s.refresh.clear(), s.access.clear()
        for cl in [x for x in s.clients if x not in ("basic", "post", "none")]:
            del s.clients[cl]
        for u in [x for x in s.users if x != "user"]:
            del s.users[u]

    def fresh(self, method="client_secret_basic"):
        """A client that did not exist before."""
        return self.s.add(O.Client(self.word(24), None if method == "none" else self.word(24), method, SUP, [URI], ["authorization_code", "refresh_token", "client_credentials"]))

    def word(self, n=48):
        self.i += 1
        return "%0*x" % (n, self.i * 0x9E3779B97F4A7C15F39CC0605CEDC835 + 1)

    def call(self, endpoint, r):
        st, rep = O.call(endpoint, r)
        self.done()
        return st, rep

    def scope(self, names=("a", "b")):
        """A scope text never used before, of permitted names."""
        self.i += 1
        return " ".join(names[int(b)] for b in bin(self.i)[2:])

    def client(self):
        return (self.basic, self.post, self.none)[self.i % 3]

    def redeem(self, cl=None, **over):
        cl = cl or self.client()
        v, code = self.word(), self.word(64)
        self.s.put_code(code, cl, self.user, URI, ["a", "openid"], v, nonce=self.word(20))
        f = {"grant_type": "authorization_code", "code": code, "redirect_uri": URI, "code_verifier": v}
        f.update({k: (self.word() if x is ... else x) for k, x in over.items()})
        return O.token_req(cl, {k: x for k, x in f.items() if x is not None})

    def kinds(self):
        p = self.p
        tok, q = p.token, {}

        def auth(user=True, **over):
            q = {"response_type": "code", "client_id": self.client().id, "redirect_uri": URI, "scope": "a openid", "state": self.word(), "nonce": self.word(), "code_challenge": self.word(), "code_challenge_method": "plain"}
            q.update({k: (self.word() if x is ... else x) for k, x in over.items()})
            return O.req(query={k: x for k, x in q.items() if x is not None}, user=self.user if user else None)

        def refresh(**over):
            cl = (self.basic, self.post)[self.i % 2]
            t = self.word()
            self.s.put_refresh(t, cl, self.user, ["a", "b"])
            f = {"grant_type": "refresh_token", "refresh_token": t}
            f.update({k: (self.word() if x is ... else x) for k, x in over.items()})
            return O.token_req(cl, f)

        yield "redeem", tok, lambda: self.redeem()
        def new_redeem():
            self.user = self.s.add(O.User(self.word(20)))
            return self.redeem(self.fresh(("client_secret_basic", "client_secret_post", "none")[self.i % 3]))

        def new_authorize():
            self.user = self.s.add(O.User(self.word(20)))
            return auth(client_id=self.fresh().id)

        def new_refresh():
            cl = self.fresh(("client_secret_basic", "client_secret_post", "none")[self.i % 3])
            t = self.word()
            self.s.put_refresh(t, cl, self.s.add(O.User(self.word(20))), ["a", "b"])
            return O.token_req(cl, {"grant_type": "refresh_token", "refresh_token": t})

        def new_revoke():
            cl = self.fresh()
            f, h = O.client_auth(cl, {"token": self.word()})
            return O.req(form=f, headers=h)

        yield "new-client-redeem", tok, new_redeem
        yield "new-client-authorize", p.authorize, new_authorize
        yield "new-client-refresh", tok, new_refresh
        yield "new-client-cc", tok, lambda: O.token_req(self.fresh(), {"grant_type": "client_credentials", "scope": "a"})
        yield "new-client-revoke", p.revoke, new_revoke
        yield "redeem-unknown-code", tok, lambda: self.redeem(code=...)
        yield "redeem-wrong-verifier", tok, lambda: self.redeem(code_verifier=...)
        yield "redeem-no-verifier", tok, lambda: self.redeem(code_verifier=None)
        yield "redeem-wrong-uri", tok, lambda: self.redeem(redirect_uri=...)
        yield "redeem-no-code", tok, lambda: self.redeem(code=None)
        yield "authorize", p.authorize, lambda: auth()
        yield "authorize-no-user", p.authorize, lambda: auth(user=False)
        yield "authorize-bad-uri", p.authorize, lambda: auth(redirect_uri=...)
        yield "authorize-unknown-client", p.authorize, lambda: auth(client_id=...)
        yield "authorize-bad-scope", p.authorize, lambda: auth(scope=...)
        yield "authorize-bad-type", p.authorize, lambda: auth(response_type=...)
        yield "authorize-bad-method", p.authorize, lambda: auth(code_challenge_method=...)
        yield "authorize-new-scopes", p.authorize, lambda: auth(scope=self.scope())
        yield "refresh-new-scopes", tok, lambda: refresh(scope=self.scope())
        yield "cc-new-scopes", tok, lambda: O.token_req(self.basic, {"grant_type": "client_credentials", "scope": self.scope()})
        yield "consent-new-scopes", p.authorize.get_consent_data, lambda: auth(scope=self.scope())
        yield "consent", p.authorize.get_consent_data, lambda: auth()
        yield "refresh", tok, lambda: refresh()
        yield "refresh-unknown", tok, lambda: refresh(refresh_token=...)
        yield "refresh-bad-scope", tok, lambda: refresh(scope=...)
        yield "cc", tok, lambda: O.token_req(self.basic, {"grant_type": "client_credentials", "scope": "a"})
        yield "cc-bad-scope", tok, lambda: O.token_req(self.basic, {"grant_type": "client_credentials", "scope": self.word()})
        yield "bad-grant", tok, lambda: O.token_req(self.basic, {"grant_type": self.word()})
        yield "unknown-client", tok, lambda: O.req(form={"grant_type": "client_credentials"}, headers={"Authorization": O.basic(self.word(), self.word())})
        yield "wrong-secret", tok, lambda: O.req(form={"grant_type": "client_credentials"}, headers={"Authorization": O.basic("basic", self.word())})
        yield "wrong-secret-post", tok, lambda: O.req(form={"grant_type": "client_credentials", "client_id": "post", "client_secret": self.word()})
        yield "unknown-public", tok, lambda: O.req(form={"grant_type": "authorization_code", "client_id": self.word()})
        yield "revoke", p.revoke, lambda: O.req(form=dict(token=self.word()), headers={"Authorization": O.basic("basic", "secret")})
        yield "revoke-bad-hint", p.revoke, lambda: O.req(form=dict(token=self.word(), token_type_hint=self.word()), headers={"Authorization": O.basic("basic", "secret")})
        yield "revoke-unauth", p.revoke, lambda: O.req(form=dict(token=self.word()), headers={"Authorization": "Bearer " + self.word()})
        yield "noise", tok, lambda: O.req(form={self.word(): self.word()}, headers={"x-" + self.word(): self.word()}, query={self.word(): self.word()})


class Failing:
    """The k-th storage call of a request fails, or the request is cancelled there."""

    def __init__(self, store, how):
        self.store, self.how = store, how
        self.k, self.n = 0, 0

    async def gate(self, phase, name, args):
        if self.n == self.k:
            self.n += 1
            if self.how == "cancel":
                asyncio.current_task().cancel()
                await asyncio.sleep(0)
            else:
                raise sched.failure("down")
        else:
            self.n += 1


def measure():
    gc.collect()
    gc.collect()
    return sys.getallocatedblocks(), len(gc.get_objects())


BOUNDED = 12000      # blocks or objects; interpreter and library caches of a fixed size stay below


def watch(c, kind, op, n, rounds=7, warm=3):
    """op(serial) is executed in rounds of n; what stays alive after each round is recorded.

    Growth in all of the last rounds is a suspicion only (a bounded cache may still be filling, CPython's
    method cache for one): the rounds go on until one of them does not grow, or the growth is beyond any such bound.
    """
    serial = 0
    for _ in range(20):
        op(serial)
        serial += 1
    marks = []
    limit = max(n / 12, 15)

    def one():
        nonlocal serial
        for _ in range(n):
            op(serial)
            serial += 1
        marks.append(measure())

    def least(which):
        return min(b[which] - a[which] for a, b in list(zip(marks, marks[1:]))[warm - 1:])

    for r in range(rounds):
        one()
    while True:
        suspect = [w for w in (0, 1) if least(w) >= limit]
        if not suspect:
            break
        c.count("suspicious-rounds")
        beyond = [w for w in suspect if marks[-1][w] - marks[0][w] > BOUNDED]
        if beyond:
            what = ("memory blocks", "objects")[beyond[0]]
            per = (marks[-1][beyond[0]] - marks[0][beyond[0]]) / (n * (len(marks) - 1))
            c.fail("what operations of kind %s allocate stays allocated: %d %s after %d operations, %.2f for each" % (kind, marks[-1][beyond[0]] - marks[0][beyond[0]], what, n * (len(marks) - 1), per), kind=kind)
            break
        one()
    for i in range(serial):
        c.case(kind, i, sample=(kind, i, marks) if i == 0 else None)
    c.count("rounds", len(marks))
    c.count("kinds-watched")
    c.count("growth-at-most-10-per-round", sum(1 for a, b in list(zip(marks, marks[1:]))[warm - 1:] if b[0] - a[0] <= 10))


def part_requests(c, rng):
    n = c.n(200, 1500)
    for name in [k for k, _, _ in Requests(c, rng).kinds()]:
        lab = Requests(c, rng)
        endpoint, make = next((e, m) for k, e, m in lab.kinds() if k == name)

        def op(i):
            st, rep = O.call(endpoint, make()) if not name.startswith("consent") else attempt(O.run, endpoint(make()))
            lab.done()
            if st != "ok":
                c.fail("a request raised %r" % (rep,), kind=name)
        watch(c, name, op, n)
    # storage failures and cancellations, at each of the points a request has
    for name in ("redeem", "redeem-wrong-verifier", "refresh", "authorize", "revoke", "cc"):
        for how in ("fail", "cancel"):
            lab = Requests(c, rng)
            endpoint, make = next((e, m) for k, e, m in lab.kinds() if k == name)
            f = Failing(lab.s, how)
            lab.s.gate = f.gate

            def op(i):
                f.k, f.n = i % 9, 0
                r = make()

                async def one():
                    t = asyncio.ensure_future(endpoint(r))
                    try:
                        await t
                    except (sched.Injected, asyncio.CancelledError):
                        c.count("interrupted")
                O.run(one())
                lab.done()
            watch(c, name + "-" + how, op, n)
    # several requests for one code at once
    lab = Requests(c, rng)

    def op(i):
        r = [lab.redeem(lab.basic) for _ in range(2)]
        code = sorted(lab.s.codes)[0]
        rs = [O.token_req(lab.basic, {"grant_type": "authorization_code", "code": code, "redirect_uri": URI, "code_verifier": "x" * 43}) for _ in range(2)] + r

        async def all_():
            await asyncio.gather(*[lab.p.token(x) for x in rs])
        O.run(all_())
        lab.done()

    async def pause(phase, name, args):
        await asyncio.sleep(0)
    lab.s.gate = pause
    watch(c, "one-code-at-once", op, n // 2)
    left = [t for t in asyncio.all_tasks(O.loop()) if not t.done()]
    c.check(not left, "tasks are left running", left=left)


def part_jose(c, rng):
    n = c.n(300, 3000)
    ks = {"HS256": keys.seeded_oct(rng, 48), "ES256": keys.seeded_ec(rng, "P-256")}
    rsa = keys.rsa_small()
    if rsa:
        ks["RS256"] = rsa[0]
    for alg, key in ks.items():
        jk = jwk(key, kid="k")
        other = jwk(keys.seeded_oct(rng, 40) if key.kty == "oct" else key, kid="k2")
        m = n if key.kty != "RSA" else n // 4

        def make(i, **kw):
            return JsonWebToken({"sub": "user-%d" % i, "jti": "%032x" % i, **kw}, {"alg": alg}).encode(jk)

        watch(c, "encode:" + alg, lambda i: make(i), m)
        watch(c, "decode:" + alg, lambda i: JsonWebToken.decode(make(i), jk, alg, options={"sub": {"value": "user-%d" % i}}), m)
        watch(c, "decode-forged:" + alg, lambda i: attempt(JsonWebToken.decode, make(i)[:-5] + "AAAAA", jk), m)
        watch(c, "decode-expired:" + alg, lambda i: attempt(JsonWebToken.decode, R_token(alg, key, {"exp": 1 + i}), jk), m)
        watch(c, "decode-other-key:" + alg, lambda i: attempt(JsonWebSignature.deserialize, JsonWebSignature(b"%d" % i, {"alg": alg, "kid": "k"}).serialize(jk), other), m)
        watch(c, "decode-garbage:" + alg, lambda i: attempt(JsonWebToken.decode, "%x.%x.%x" % (i, i + 1, i + 2), jk), m)
        watch(c, "unknown-alg:" + alg, lambda i: attempt(JsonWebSignature, b"", {"alg": "X%d" % i}), m)
        watch(c, "claims:" + alg, lambda i: IDToken({"sub": "%d" % i, "nonce": "n%d" % i}, {"nonce": "n%d" % i}), m)
        watch(c, "registered-claims:" + alg, lambda i: attempt(JsonWebToken.decode, R_token(alg, key, {"iss": "https://i%d" % i, "aud": ["a%d" % i, "b"], "exp": 9000000000 + i, "nbf": i, "iat": i, "c%d" % i: i, "azp": "z%d" % i}), jk,
              options={"iss": {"values": ["https://i%d" % i, "x"]}, "c%d" % i: {"essential": True}}), m)
        watch(c, "headers:" + alg, lambda i: attempt(JsonWebSignature.deserialize, R.sign_token({"alg": alg, "typ": "t%d" % i, "cty": "c%d" % i, "h%d" % i: i, "x5u": "https://x/%d" % i, "kid": "k"}, b"p%d" % i, key), jk), m)
        watch(c, "unmet-options:" + alg, lambda i: attempt(JsonWebToken.decode, R_token(alg, key, {"iss": "https://i%d" % i}), jk, options={"iss": {"value": "https://j%d" % i}}), m)
    # keys never seen before
    words = iter(range(1, 1 << 30))
    watch(c, "load-oct", lambda i: JsonWebKey({"kty": "oct", "k": T.to_string(T.base64url_encode(b"%040d" % next(words))), "kid": str(i)}).dump(False), n)
    watch(c, "sign-with-new-oct", lambda i: JsonWebSignature(b"x", {"alg": "HS256"}).serialize(JsonWebKey({"kty": "oct", "k": T.to_string(T.base64url_encode(b"%040d" % next(words)))})), n)
    base = [keys.seeded_ec(rng, "P-256") for _ in range(4)]
    watch(c, "load-ec", lambda i: JsonWebKey(base[i % 4].jwk(True, kid="%d" % next(words))).dump(), n // 2)
    watch(c, "load-bad-ec", lambda i: attempt(JsonWebKey, dict(base[i % 4].jwk(False), x=T.to_string(T.int_to_b64(next(words))))), n // 2)
    pem = [jwk(k).export() for k in base]
    watch(c, "parse-ec", lambda i: JsonWebKey.parse(pem[i % 4], "EC", False, kid="%d" % next(words)).export(True), n // 2)
    watch(c, "generate", lambda i: JsonWebKey.generate("oct", kid="%d" % i), n)
    jks = [jwk(k, kid=str(i)) for i, k in enumerate(base)]
    ring = JsonWebKeySet(jks)
    watch(c, "key-set-miss", lambda i: ring.get_key("unknown-%d" % i), n)
    watch(c, "key-set", lambda i: JsonWebKeySet([jwk(base[0], kid="a%d" % i)]).dump(), n // 2)


def R_token(alg, key, claims):
    return R.sign_token({"alg": alg}, R.jdump(claims), key).decode()


def part_tools(c, rng):
    n = c.n(400, 5000)
    watch(c, "base64", lambda i: T.base64url_decode(T.base64url_encode(b"value %d" % i)), n)
    watch(c, "int", lambda i: T.b64_to_int(T.int_to_b64(10 ** 30 + i)), n)
    watch(c, "json", lambda i: T.json_loads(T.json_dumps({"k%d" % i: ["v%d" % i, i]})), n)
    watch(c, "query", lambda i: T.urldecode(T.urlencode("https://x/%d" % i, **{"a%d" % i: "b%d" % i}).split("?")[1]), n)
    watch(c, "basic", lambda i: T.get_basic_authorization({"authorization": O.basic("c%d" % i, "s%d" % i)}), n)
    watch(c, "bearer", lambda i: T.get_bearer_authorization({"authorization": "Bearer t%d" % i}), n)
    watch(c, "half-hash", lambda i: T.create_half_hash("token-%d" % i, "HS256"), n)
    watch(c, "secret", lambda i: T.secret_token(), n)
    watch(c, "full-dict", lambda i: T.FullDict({"a%d" % i: i, "b": None}), n)


def run(c):
    gc.disable()
    # the interpreter's own warning filter: what was warned of once is remembered, text included
    warnings.resetwarnings()
    warnings.simplefilter("default")
    warnings.showwarning = lambda *a, **k: None
    try:
        kept = []
        # the monitor itself must see a leak of one small value per operation
        watch_probe(c, kept)
        part_requests(c, c.sub_rng("requests"))
        part_jose(c, c.sub_rng("jose"))
        part_tools(c, c.sub_rng("tools"))
    finally:
        gc.enable()
    c.require("kinds-watched", 150)
    c.require("interrupted", 600)
    c.require("growth-at-most-10-per-round", 300)


def watch_probe(c, kept):
    marks = []
    n = 200
    for r in range(4):
        for i in range(n):
            kept.append("value-%d-%d" % (r, i))
        marks.append(measure())
    c.check(min(b[0] - a[0] for a, b in zip(marks, marks[1:])) >= n / 4, "monitor self-test failed: a deliberate leak was not seen", marks=marks)
    c.count("self-test")
    del kept[:]
