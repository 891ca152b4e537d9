"""C31: grants, response types and authentication methods the application defines work like the built-in ones."""
import asyncio
import json

from vf import gen
from vf import oauth as O
from psion.oauth2.authentication.methods import BaseAuthentication
from psion.oauth2.exceptions import InvalidClient, InvalidGrant, OAuth2Error
from psion.oauth2.grants import BaseGrant

SCALE = 3
DEEP = 3
RULE = ("Providers are built with grants and client authentication methods of the application's own (random names, method lists, results, errors). Each request is judged by a table: reached only if named, registered and authenticated by a listed method; "
        "called with exactly the request's parameters, client and user; its result or OAuth error, with description, headers and status, is the response. Distinct cases are counted by configuration and request.")

SUP = ["a", "b"]
BUILTIN = ("client_secret_basic", "client_secret_post", "none")
CUSTOM = ("x_assertion", "x_certificate")


class Assertion(BaseAuthentication):
    __method__ = "x_assertion"

    async def authenticate(self, request):
        a = request.form().get("client_assertion")
        if not a:
            return None
        cid, _, proof = a.partition(":")
        client = await self.find_client(cid)
        if not client or proof != "proof-of-" + cid or client.get_token_endpoint_auth_method() != self.__method__:
            raise InvalidClient("Bad assertion.", headers={"X-Assertion": "refused"})
        return client


class Certificate(BaseAuthentication):
    __method__ = "x_certificate"

    async def authenticate(self, request):
        cid = request.headers.get("x-client-certificate")
        if not cid:
            return None
        client = await self.find_client(cid)
        if not client or client.get_token_endpoint_auth_method() != self.__method__:
            raise InvalidClient("Bad certificate.")
        return client


class SlowDown(OAuth2Error):
    error = "slow_down"


def name(rng):
    return rng.choice(["p", "resource", "audience", "device_code", "x-y", "Scope", "username", "a.b", "code", "refresh_token", "nonce", "prompt"]) + rng.choice(["", "", "1", "_2"])


def digest(d):
    return json.dumps(d, sort_keys=True)


def make_grant(log, gtype, rtype, methods, behave):
    """behave(kind, data, client, user) -> result or raises"""
    class Grant(BaseGrant):
        __grant_type__ = gtype
        __response_type__ = rtype
        __authentication_methods__ = methods

        async def token(self, data, client):
            log.append(("token", gtype, dict(data), client.get_client_id(), None, self.config, self.adapter))
            await self.adapter.find_user("u0")        # a point where other requests go on
            return behave("token", data, client, None)

        async def authorize(self, data, client, user):
            log.append(("authorize", rtype, dict(data), client.get_client_id(), user, self.config, self.adapter))
            await self.adapter.find_user("u0")
            return behave("authorize", data, client, user)
    return Grant


def credentials(method, cid, good=True):
    """(form, headers)"""
    sec = "secret-of-" + cid if good else "wrong"
    if method == "client_secret_basic":
        return {}, {"Authorization": O.basic(cid, sec)}
    if method == "client_secret_post":
        return {"client_id": cid, "client_secret": sec}, {}
    if method == "none":
        return {"client_id": cid}, {}
    if method == "x_assertion":
        return {"client_assertion": cid + (":proof-of-" + cid if good else ":x")}, {}
    return {}, {"X-Client-Certificate": cid if good else cid + "x"}


class Lab:
    def __init__(self, c, rng):
        self.c, self.rng = c, rng
        s = self.s = O.Store("x")
        s.add(O.User("u0"), O.User("u1"))
        self.log = []
        self.behaviour = {}
        self.types = rng.sample(["urn:ietf:params:oauth:grant-type:device_code", "password", "x", "urn:x:a", "authorization_code2", "refresh", "client_credentials ", "Password", "URN:X:A", "X-Grant", "urn:x:a#b", "urn:ietf:params:oauth:grant-type:refresh_token", "gr\u00e4nt"], 3)
        self.rtypes = rng.sample(["token", "code token", "x", "codex", "id_token", "Token", "CODE", "token code", "code id_token token", "X", "urn:x:code"], 3)
        lists = [None, None, [], ["x_assertion"], ["x_certificate", "client_secret_basic"], ["none"], ["client_secret_post", "x_assertion"], list(BUILTIN)]
        self.lists = {t: rng.choice(lists) for t in self.types}

        def behave(kind, data, client, user):
            out = self.behaviour[kind]
            if isinstance(out, Exception):
                raise out
            return out(data) if callable(out) else out
        self.grants = [make_grant(self.log, t, r, self.lists[t], behave) for t, r in zip(self.types, self.rtypes)]
        both = list(O.ALL_GRANTS) + self.grants
        if rng.random() < 0.5:
            both = self.grants + list(O.ALL_GRANTS)
        self.kw = dict(token_lifespan=rng.randrange(1, 10000), id_token_lifespan=rng.randrange(1, 10000))
        self.p = O.provider(s, SUP, grants=both, issuer="https://op%d.example" % rng.randrange(100), **self.kw)
        self.clients = []
        for i, m in enumerate(BUILTIN + CUSTOM):
            for j in range(2):
                cid = "c%d%d" % (i, j)
                self.clients.append(s.add(O.Client(cid, None if m == "none" else "secret-of-" + cid, m, SUP, ["https://%s.example/cb" % cid],
                                                   rng.sample(self.types, rng.randrange(0, 4)) + rng.sample(["client_credentials", "refresh_token"], rng.randrange(0, 3)),
                                                   rng.sample(self.rtypes + ["code"], rng.randrange(0, 4)))))

    def outcome(self, rng, kind):
        """(behaviour, expectation)"""
        r = rng.random()
        if r < 0.55:
            if kind == "token":
                out = {name(rng): gen.uni_text(rng) for _ in range(rng.randrange(1, 4))}
                out["access_token"] = "AT%d" % rng.randrange(10 ** 9)
                if rng.random() < 0.3:
                    out["nested"] = {"a": [1, None, "x"], "z": 0, "e": ""}
                return out, ("ok", out)
            out = "https://%s/path?code=%d&x=%%20y" % (rng.choice(["c.example", "other.example:8080"]), rng.randrange(10 ** 6))
            return out, ("ok", out)
        kind_ = rng.choice([SlowDown, InvalidGrant, InvalidClient, OAuth2Error])
        d = rng.choice([None, "A description", "with 'quotes'", "ligne é中\U0001f600", "a&b=c+d%20e#f", " x ", "two\nlines", "word " * rng.choice([20, 60, 400])])
        h = rng.choice([None, {"X-Detail": "v%d" % rng.randrange(100)}, {"Retry-After": "5", "X-B": "c"}])
        u = rng.choice([None, "https://op.example/doc", "https://op.example/doc?a=1&b=%20#frag", "https://op.example/" + "p" * 600])
        exc = kind_(d, uri=u, headers=dict(h) if h else None)
        if kind_ is OAuth2Error:
            exc.error = "x_error"
        return exc, ("err", exc.error, d, u, h)

    # ------------------------------------------------------------ token
    def token(self, rng):
        c = self.c
        cl = rng.choice(self.clients)
        gtype = rng.choice(self.types)
        how = cl.method if rng.random() < 0.7 else rng.choice(BUILTIN + CUSTOM)
        good = rng.random() < 0.85
        form, headers = credentials(how, cl.id, good)
        extra = {name(rng): gen.uni_text(rng) for _ in range(rng.randrange(0, 4))}
        extra = {k: v for k, v in extra.items() if v and k not in ("client_id", "client_secret", "client_assertion", "grant_type")}
        if rng.random() < 0.3:
            extra["scope"] = "a zzz"
        sent = {"grant_type": gtype, **extra, **form}
        r = O.req(form=sent, headers=headers)
        if how == "none":
            good = True
        methods = self.lists[gtype]
        authentic = good and how == cl.method and (not methods or how in methods)
        registered = gtype in cl.grants
        out, expect = self.outcome(rng, "token")
        self.behaviour["token"] = out
        del self.log[:]
        detail = dict(client=cl, method=how, good=good, listed=methods, grant=gtype, sent=sent)
        st, rep = O.call(self.p.token, r)
        key = (cl.method, how, good, str(methods), registered, expect[:2] if expect[0] == "err" else "ok", digest(sent))
        c.case("token", key, sample=detail)
        if not c.check(st == "ok", "a request to an application-defined grant raised %r" % (rep,), **detail):
            return
        if not authentic or not registered:
            c.count("custom-kept-out")
            c.check(not self.log, "an application-defined grant was reached by a client that is not registered for it or not authenticated by a method it lists", **detail)
            c.check(rep.status in (400, 401) and rep.error == ("invalid_client" if not authentic else "unauthorized_client"), "wrong refusal before an application-defined grant", got=rep, authentic=authentic, **detail)
            return
        c.count("custom-reached")
        c.count("via:" + how)
        if not c.check(len(self.log) == 1, "an application-defined grant was not reached exactly once", log=self.log, got=rep, **detail):
            return
        k, t, data, cid, _, config, adapter = self.log[0]
        c.check(t == gtype and cid == cl.id, "an application-defined grant got another client or was mixed up with another", log=self.log, **detail)
        data.pop("grant_type", None)
        c.check(data == {**extra, **form}, "an application-defined grant did not get exactly the parameters of the request", got=data, **detail)
        c.check(getattr(adapter, "vf_store", None) is self.s and config.issuer == self.p.issuer and config.token_lifespan == self.kw["token_lifespan"], "an application-defined grant was given another configuration or storage", **detail)
        self.judge_json(rep, expect, detail)

    def judge_json(self, rep, expect, detail):
        c = self.c
        if expect[0] == "ok":
            c.count("custom-ok")
            c.check(rep.status == 200 and rep.json == json.loads(json.dumps(expect[1])), "the response is not what the application-defined grant returned", got=rep, **detail)
        else:
            c.count("custom-error")
            _, error, d, u, h = expect
            want = {k: v for k, v in (("error", error), ("error_description", d), ("error_uri", u)) if v is not None}
            c.check(rep.status in (400, 401) and rep.json == want, "the refusal of an application-defined grant is not conveyed", got=rep, want=want, **detail)
            for k, v in (h or {}).items():
                c.check(rep.headers.get(k.lower()) == v, "a header of a refusal is not conveyed", got=rep, header=k, **detail)
        c.check("no-store" in rep.headers.get("cache-control", "").lower(), "the response of an application-defined grant may be cached", got=rep, **detail)

    def near(self, rng):
        """A type that is none of the provider's but looks like one reaches no grant, registered or not."""
        c = self.c
        token = rng.random() < 0.5
        mine = self.types if token else self.rtypes
        known = set(mine) | ({"authorization_code", "refresh_token", "client_credentials"} if token else {"code"})
        target = rng.choice(mine)
        texts = [t for t in gen.near_misses(target, rng) + [target.split()[0], " ".join(reversed(target.split())), target + " " + target, "None", "none", target.rsplit(":", 1)[-1]] if t and t not in known and gen.encodable(t)]
        text = rng.choice(texts)
        cl = O.Client("near", "secret-of-near", "client_secret_post", SUP, ["https://near.example/cb"], list(self.types) + [text], list(self.rtypes) + [text])
        self.s.add(cl)
        del self.log[:]
        self.behaviour = {"token": {"access_token": "reached"}, "authorize": "https://near.example/reached"}
        if token:
            st, rep = O.call(self.p.token, O.req(form={"grant_type": text, "client_id": "near", "client_secret": "secret-of-near", "scope": "a"}))
        else:
            st, rep = O.call(self.p.authorize, O.req(query={"response_type": text, "client_id": "near", "redirect_uri": cl.uris[0], "scope": "a"}, user=self.s.users["u0"]))
        detail = dict(asked=text, like=target, token=token)
        c.case("near", (text, token), sample=detail)
        c.count("near-types")
        if c.check(st == "ok", "a request for an unknown type raised %r" % (rep,), **detail):
            c.check(not self.log, "an application-defined grant was reached by a request that names another type", log=self.log, **detail)
            err = rep.error if token else dict(rep.params()).get("error")
            c.check(err is not None, "a type the provider does not offer was served", got=rep, **detail)
        del self.s.clients["near"]

    # ------------------------------------------------------------ authorize
    def authorize(self, rng):
        c = self.c
        cl = rng.choice(self.clients)
        rtype = rng.choice(self.rtypes)
        user = self.s.users[rng.choice(["u0", "u1"])]
        q = {"response_type": rtype, "client_id": cl.id, "redirect_uri": cl.uris[0]}
        if rng.random() < 0.6:
            q["state"] = gen.uni_text(rng) or "s"
        q.update({k: v for k, v in {name(rng): gen.uni_text(rng) for _ in range(rng.randrange(0, 3))}.items() if v and k not in q})
        out, expect = self.outcome(rng, "authorize")
        self.behaviour["authorize"] = out
        del self.log[:]
        detail = dict(client=cl, sent=q)
        r = O.req(query=q, user=user) if rng.random() < 0.5 else O.req(form=q, user=user)
        st, rep = O.call(self.p.authorize, r)
        registered = rtype in cl.responses
        c.case("authorize", (rtype, registered, expect[:2] if expect[0] == "err" else "ok", digest(q)), sample=detail)
        if not c.check(st == "ok", "a request to an application-defined response type raised %r" % (rep,), **detail):
            return
        if not registered:
            c.count("custom-response-kept-out")
            c.check(not self.log and dict(rep.params()).get("error") == "unauthorized_client", "an application-defined response type served a client not registered for it", got=rep, log=self.log, **detail)
            return
        c.count("custom-response-reached")
        if not c.check(len(self.log) == 1, "an application-defined response type was not reached exactly once", log=self.log, got=rep, **detail):
            return
        k, t, data, cid, u, config, adapter = self.log[0]
        c.check(t == rtype and cid == cl.id and getattr(u, "id", None) == user.id, "an application-defined response type got another client or user", log=self.log, **detail)
        data.pop("response_type", None)
        c.check(data == {k: v for k, v in q.items() if k != "response_type"}, "an application-defined response type did not get exactly the parameters of the request", got=data, **detail)
        if expect[0] == "ok":
            c.check(300 <= rep.status < 400 and rep.location == expect[1], "the user is not redirected where the application-defined response type said", got=rep, want=expect[1], **detail)
        else:
            _, error, d, ur, h = expect
            p = dict(rep.params())
            c.check(rep.base() == cl.uris[0] and p.get("error") == error and p.get("error_description") == d and p.get("error_uri") == ur, "the refusal of an application-defined response type is not conveyed", got=rep, **detail)
            for k, v in (h or {}).items():
                c.check(rep.headers.get(k.lower()) == v, "a header of a refusal is not conveyed", got=rep, header=k, **detail)

    # ------------------------------------------------------------ methods at the built-in grants and at revocation
    def builtin(self, rng):
        c = self.c
        cl = rng.choice([x for x in self.clients if x.method in CUSTOM])
        good = rng.random() < 0.7
        form, headers = credentials(cl.method, cl.id, good)
        which = rng.choice(["refresh", "refresh", "revoke", "cc", "two"])
        detail = dict(client=cl, good=good, which=which)
        c.case("builtin", (which, cl.id, good, cl.grants and sorted(cl.grants)), sample=detail)
        if which == "revoke":
            tok = "t%d" % rng.randrange(10 ** 9)
            del self.s.revoked[:]
            st, rep = O.call(self.p.revoke, O.req(form={"token": tok, **form}, headers=headers))
            if c.check(st == "ok", "revocation raised", error=repr(rep), **detail):
                c.check([x[:2] for x in self.s.revoked] == ([(cl.id, tok)] if good else []) and rep.status == (200 if good else 401), "revocation does not honour an application-defined authentication method", got=rep, revoked=list(self.s.revoked), **detail)
                if not good and cl.method == "x_assertion":
                    c.check(rep.headers.get("x-assertion") == "refused", "the headers of an application-defined refusal are not conveyed", got=rep, **detail)
                c.count("custom-revoke")
        elif which == "refresh":
            tok = "rt%d" % rng.randrange(10 ** 9)
            self.s.put_refresh(tok, cl, self.s.users["u1"], ["a"])
            st, rep = O.call(self.p.token, O.req(form={"grant_type": "refresh_token", "refresh_token": tok, **form}, headers=headers))
            if c.check(st == "ok", "a refresh raised", error=repr(rep), **detail):
                ok = good and "refresh_token" in cl.grants
                c.check(rep.is_token == ok, "a built-in grant does not honour an application-defined authentication method", got=rep, **detail)
                if not ok:
                    c.check(rep.error == ("invalid_client" if not good else "unauthorized_client"), "wrong refusal", got=rep, **detail)
                c.count("custom-refresh")
        elif which == "cc":
            # the grant lists its methods; others do not authenticate for it
            st, rep = O.call(self.p.token, O.req(form={"grant_type": "client_credentials", **form}, headers=headers))
            c.check(st == "ok" and not rep.is_token and rep.error == "invalid_client", "a grant served a client authenticated by a method it does not list", got=rep, **detail)
            c.count("custom-not-listed")
        else:
            # a built-in client is untouched by the presence of other methods
            b = rng.choice([x for x in self.clients if x.method not in CUSTOM])
            f, h = credentials(b.method, b.id)
            tok = "rt%d" % rng.randrange(10 ** 9)
            self.s.put_refresh(tok, b, self.s.users["u1"], ["a"])
            st, rep = O.call(self.p.token, O.req(form={"grant_type": "refresh_token", "refresh_token": tok, **f}, headers=h))
            c.check(st == "ok" and rep.is_token == ("refresh_token" in b.grants), "application-defined authentication methods disturb the built-in ones", got=rep, client=b)
            c.count("builtin-undisturbed")

    # ------------------------------------------------------------ several at once
    def crowd(self, rng):
        c = self.c
        reqs = []
        for i in range(rng.randrange(2, 7)):
            cl = rng.choice(self.clients)
            gtype = rng.choice(self.types)
            methods = self.lists[gtype]
            if gtype not in cl.grants or not (not methods or cl.method in methods):
                continue
            form, headers = credentials(cl.method, cl.id)
            reqs.append((cl, gtype, "n%d-%d" % (i, rng.randrange(10 ** 6)), form, headers))
        if len(reqs) < 2:
            return
        self.behaviour["token"] = lambda data: {"access_token": "for-" + data["note"], "x": data["note"]}
        steps = [rng.randrange(0, 5) for _ in range(40)]

        async def gate(phase, name, args):
            for _ in range(steps[(len(self.log) * 7 + len(name) + self.s.n) % 40]):
                await asyncio.sleep(0)
        self.s.gate = gate
        del self.log[:]

        async def all_():
            return await asyncio.gather(*[self.p.token(O.req(form={"grant_type": g, "note": n, **f}, headers=h)) for _, g, n, f, h in reqs])
        try:
            out = O.run(all_())
        finally:
            self.s.gate = None
        c.case("crowd", tuple(n for _, _, n, _, _ in reqs))
        c.count("custom-crowd", len(reqs))
        for (cl, g, n, f, h), rep in zip(reqs, out):
            rep = O.Reply(rep)
            c.check(rep.status == 200 and rep.json == {"access_token": "for-" + n, "x": n}, "concurrent requests to application-defined grants got each other's results", got=rep, note=n)
            seen = [(k[1], k[3]) for k in self.log if k[2].get("note") == n]
            c.check(seen == [(g, cl.id)], "concurrent requests to application-defined grants got each other's client", seen=seen, want=(g, cl.id))


def run(c):
    O.NOISY[0] = False   # requests are exactly as built here
    rng = c.rng
    for i in range(c.n(500, 6000)):
        lab = Lab(c, rng)
        for _ in range(40):
            r = rng.random()
            if r < 0.45:
                lab.token(rng)
            elif r < 0.7:
                lab.authorize(rng)
            elif r < 0.85:
                lab.builtin(rng)
            elif r < 0.92:
                lab.near(rng)
            else:
                lab.crowd(rng)
    for k, n in (("custom-reached", 100), ("custom-kept-out", 100), ("custom-ok", 60), ("custom-error", 50), ("custom-response-reached", 60), ("custom-response-kept-out", 50), ("custom-revoke", 20),
                 ("custom-refresh", 40), ("custom-not-listed", 20), ("builtin-undisturbed", 20), ("custom-crowd", 50), ("near-types", 100)) + tuple(("via:" + m, 5) for m in BUILTIN + CUSTOM):
        c.require(k, n)
