"""C24: extensions act only on the provider and grant they were added to; providers never influence each other."""
import hashlib
import json

from vf import keys, refjose as R, sched
from vf import oauth as O
from vf.psi import jwk

SCALE = 2
RULE = ("Sets of one to four providers in one process, with different storages, issuers, scopes, lifetimes, error pages, signing keys and recording hooks (every subset of the four checkpoints, on the code grant, a derived grant, "
        "the refresh and client-credentials grants), registered before, between and during requests; then random histories and controlled-scheduler interleavings of requests to all of them. A log of every hook invocation (which hook, "
        "checkpoint, storage, configuration, arguments, causing request) is compared with the registrations, and what hooks return with the stored record, the redirect and the token response. A case is one request on one "
        "provider in one configuration and history.")

POINTS = ["authorization_request", "authorization_response", "token_request", "token_response"]
URI = "https://c.example/cb"
LOG = []
MISSING = object()


class Derived(O.AuthorizationCodeGrant):
    """An application's own flavour of the code grant."""
    __response_type__ = "derived"
    __grant_type__ = "derived_code"


def make_hook(name, points):
    """A hook class implementing exactly `points`; it returns values that tell where it ran."""
    def __init__(self, adapter, config):
        self.adapter, self.config = adapter, config

    def note(self, point, args):
        n = len(LOG)
        LOG.append((name, point, self.adapter, self.config, O.TAG.get(), args))
        return n

    body = {"__init__": __init__}
    if "authorization_request" in points:
        async def authorization_request(self, data):
            note(self, "authorization_request", (dict(data),))
            if SILENT.get(name):
                return None
            out = {"x_ar_" + name: "%s|%s|%s" % (name, self.config.issuer, data.get("state"))}
            return dict(out, code_challenge="replaced-" + str(data.get("state"))) if OVER.get(name) else out
        body["authorization_request"] = authorization_request
    if "authorization_response" in points:
        async def authorization_response(self, code, data, client, user):
            note(self, "authorization_response", (code, dict(data), client, user))
            if SILENT.get(name):
                return None
            out = {"x_as_" + name: "%s|%s|%s" % (name, self.config.issuer, data.get("state"))}
            return dict(out, state="replaced-" + str(data.get("state"))) if OVER.get(name) else out
        body["authorization_response"] = authorization_response
    if "token_request" in points:
        async def token_request(self, data):
            note(self, "token_request", (dict(data),))
            if SILENT.get(name):
                return None
            return {"x_tr_" + name: "%s|%s|%s" % (name, self.config.issuer, data.get("code"))}
        body["token_request"] = token_request
    if "token_response" in points:
        async def token_response(self, token, data, client, user):
            note(self, "token_response", (dict(token), dict(data), client, user))
            if SILENT.get(name):
                return None if len(LOG) % 2 else {}
            out = {"x_ts_" + name: "%s|%s|%s" % (name, self.config.issuer, data.get("code"))}
            return dict(out, expires_in=7 * self.config.token_lifespan) if OVER.get(name) else out
        body["token_response"] = token_response
    # hooks come as classes of their own name or of the same one, and with methods of their own or inherited ones
    shape = sum(map(ord, name)) % 4
    label = "Hook" if shape & 1 else "Hook_" + name
    if shape & 2:
        own = {k: body.pop(k) for k in list(body)[::2]}
        return type(label, (type("Base", (), body),), own)
    return type(label, (), body)


SILENT = {}
OVER = {}      # hooks whose results replace a value that is already there
FLAVOURS = {"code": O.AuthorizationCodeGrant, "derived": Derived, "refresh": O.RefreshTokenGrant, "cc": O.ClientCredentialsGrant}


class Site:
    """One provider with its own everything."""

    def __init__(self, c, rng, i, alike=()):
        """`alike`: settings that this provider has in common with the first one."""
        self.c, self.rng, self.i = c, rng, i
        self.s = O.Store("site%d" % i)
        val = lambda name: 0 if name in alike else i
        self.scopes = ["openid", "common", "only%d" % i]
        self.issuer = "https://op%d.example" % val("issuer")
        self.err = "https://op%d.example/error" % val("error_url")
        self.life, self.idlife = 100 + val("lifespan"), 1000 + val("idlife")
        self.key = keys.seeded_oct(rng, 40)
        self.s.keyinfo = {"key": jwk(self.key, kid="k%d" % i), "alg": "HS256"}
        self.s.userinfo = lambda user, scopes: {"sub": user.id, "site": "site%d" % i}
        # same IDs everywhere, different contents
        self.s.add(O.User("u"))
        self.client = self.s.add(O.Client("c", "sec%d" % i, "client_secret_basic", self.scopes, [URI, "https://c.example/%d" % i], ["authorization_code", "derived_code", "refresh_token", "client_credentials"], ("code", "derived")))
        self.order = rng.sample(["code", "derived", "refresh", "cc"], 4)
        self.p = O.provider(self.s, self.scopes, grants=[FLAVOURS[g] for g in self.order], issuer=self.issuer, error_url=self.err, token_lifespan=self.life, id_token_lifespan=self.idlife)
        self.hooks = {g: {} for g in FLAVOURS}   # flavour -> name -> points
        self.oidc = {"code": False, "derived": False}
        self.n = 0

    def add(self, flavour, name, points, cls):
        self.p.add_hook(FLAVOURS[flavour], cls)
        # a derived grant is also a code grant
        for g in ("code", "derived") if flavour == "code" else (flavour,):
            self.hooks[g][name] = points

    def add_oidc(self, flavour):
        if flavour == "code":
            if self.oidc["code"] or self.oidc["derived"]:
                return
            self.oidc = {"code": True, "derived": True}
        else:
            if self.oidc["derived"]:
                return
            self.oidc["derived"] = True
        self.p.add_hook(FLAVOURS[flavour], O.AuthorizationCodeFlow)

    # ---- requests: (tag, coroutine factory, judge)
    def authorize(self, flavour, bad=None):
        self.n += 1
        tag = "%d/%s%d" % (self.i, flavour, self.n)
        scopes = self.rng.choice([["openid"], ["common"], ["openid", "only%d" % self.i], ["only%d" % self.i]])
        q = {"response_type": flavour, "client_id": "c", "redirect_uri": self.rng.choice(self.client.uris), "scope": " ".join(scopes), "state": tag, "nonce": "nonce-" + tag, "code_challenge": "v" * 43, "code_challenge_method": "plain"}
        if bad == "scope":
            q["scope"] = "only%d" % (self.i + 1)
        elif bad == "uri":
            q["redirect_uri"] = "https://c.example/%d" % (self.i + 1)
        r = O.req(query=q, user=self.s.users["u"])
        return tag, (lambda: self.p.authorize(r)), lambda st, rep: self.judge_authorize(tag, flavour, q, bad, st, rep)

    def over(self, flavour, point):
        return any(OVER.get(n) and point in pts and not SILENT.get(n) for n, pts in self.hooks[flavour].items())

    def expect_hooks(self, tag, flavour, points, exact, detail):
        """Hook invocations of this request are exactly those registered here for these checkpoints."""
        c = self.c
        seen = {}
        for name, point, adapter, config, t, args in LOG:
            if t != tag:
                continue
            seen[(name, point)] = seen.get((name, point), 0) + 1
            c.count("hook-calls")
            c.check(name in self.hooks[flavour] and point in self.hooks[flavour][name], "a hook ran on a provider or grant it was not added to", hook=name, point=point, **detail)
            c.check(getattr(adapter, "vf_store", None) is self.s, "a hook ran with another provider's storage", hook=name, point=point, **detail)
            c.check(config.issuer == self.issuer and config.error_url == self.err and config.token_lifespan == self.life, "a hook ran with another provider's configuration", hook=name, point=point, **detail)
            c.check(point in points, "a hook ran at a checkpoint of another kind of request", hook=name, point=point, **detail)
        if exact:
            want = {(n, pt): 1 for n, pts in self.hooks[flavour].items() for pt in pts if pt in points}
            c.check(seen == want, "hooks did not run exactly once at each point they implement", ran=seen, expected=want, **detail)
        else:
            c.check(all(v == 1 for v in seen.values()), "a hook ran more than once for one request", ran=seen, **detail)

    def judge_authorize(self, tag, flavour, q, bad, st, rep):
        c, s = self.c, self.s
        detail = dict(site=self.i, tag=tag, query=q, hooks=self.hooks, reply=rep)
        if not c.check(st == "ok", "the endpoint raised %r" % (rep,), **detail):
            return
        d = rep.params()
        self.expect_hooks(tag, flavour, POINTS[:2], not bad, detail)
        if bad:
            c.check("code" not in dict(d), "a request for another provider's scope or URI was served", **detail)
            if bad == "uri":
                c.check(rep.location.startswith(self.err), "the error page of another provider was used", **detail)
            return
        saved = [e for e in s.log if e.tag == tag and e.name == "save_authorization_code"]
        if not c.check(len(saved) == 1 and dict(d).get("code") == saved[0].args[0], "a valid request did not get a stored code", **detail):
            return
        c.count("authorized")
        data = saved[0].args[1]
        want = {"x_ar_" + n: "%s|%s|%s" % (n, self.issuer, tag) for n, pts in self.hooks[flavour].items() if "authorization_request" in pts and not SILENT.get(n)}
        got = {k: v for k, v in data.items() if k.startswith("x_")}
        c.check(got == want, "what hooks returned is not merged into exactly this request's record", got=got, expected=want, **detail)
        c.check(data.get("nonce") == (q["nonce"] if self.oidc[flavour] else None), "the nonce is recorded if and only if OpenID Connect was added to this provider and grant", data=data, **detail)
        want = sorted(("x_as_" + n, "%s|%s|%s" % (n, self.issuer, tag)) for n, pts in self.hooks[flavour].items() if "authorization_response" in pts and not SILENT.get(n))
        got = sorted((k, v) for k, v in d if k.startswith("x_"))
        c.check(got == want, "what hooks returned is not merged into exactly this response", got=got, expected=want, **detail)
        o = self.over(flavour, "authorization_response")
        c.count("replaced", o)
        c.check([v for k, v in d if k == "state"] == ["replaced-" + tag if o else tag], "state of another request, or not the one a hook put in its place", **detail)
        o = self.over(flavour, "authorization_request")
        c.count("replaced", o)
        c.check(data.get("code_challenge") == ("replaced-" + tag if o else "v" * 43), "challenge of another request, or not the one a hook put in its place", data=data, **detail)

    def token(self, flavour, bad=None):
        self.n += 1
        tag = "%d/t-%s%d" % (self.i, flavour, self.n)
        scopes = self.rng.choice([["openid"], ["common"], ["openid", "only%d" % self.i]])
        nonce = "nonce-" + tag
        ref = None
        if flavour in ("code", "derived"):
            ref = self.s.put_code(tag, self.client, self.s.users["u"], URI, scopes, "v" * 43, nonce=nonce)
            f = {"grant_type": "authorization_code" if flavour == "code" else "derived_code", "code": ref, "redirect_uri": URI, "code_verifier": "v" * 43}
            if bad == "verifier":
                f["code_verifier"] = "w" * 43
        elif flavour == "refresh":
            ref = self.s.put_refresh(tag, self.client, self.s.users["u"], scopes)
            f = {"grant_type": "refresh_token", "refresh_token": ref}
        else:
            f = {"grant_type": "client_credentials", "scope": " ".join(scopes)}
        cl = self.client
        if bad == "secret":
            cl = O.Client("c", "sec%d" % (self.i + 1), "client_secret_basic")
        r = O.token_req(cl, f)
        return tag, (lambda: self.p.token(r)), lambda st, rep: self.judge_token(tag, flavour, scopes, nonce, bad, st, rep)

    def judge_token(self, tag, flavour, scopes, nonce, bad, st, rep):
        c, s = self.c, self.s
        detail = dict(site=self.i, tag=tag, flavour=flavour, scopes=scopes, hooks=self.hooks, oidc=self.oidc, reply=rep)
        if not c.check(st == "ok", "the endpoint raised %r" % (rep,), **detail):
            return
        code = flavour in ("code", "derived")
        self.expect_hooks(tag, flavour, POINTS[2:], code and not bad, detail)
        if bad:
            c.check(not rep.is_token, "a request valid only elsewhere was served", **detail)
            return
        if not c.check(rep.is_token, "a valid request was refused", **detail):
            return
        c.count("tokens:" + flavour)
        j = rep.json
        c.check(j["access_token"] in s.access and j["access_token"].startswith("AT-site%d-" % self.i), "the token was not created by this provider's storage", **detail)
        o = code and self.over(flavour, "token_response")
        c.count("replaced", o)
        c.check(j["expires_in"] == (7 * self.life if o else self.life), "the lifetime is not this provider's, or not the one a hook put in its place", **detail)
        extra = {k: v for k, v in j.items() if k.startswith("x_")}
        if code:
            want = {"x_ts_" + n: "%s|%s|%s" % (n, self.issuer, tag) for n, pts in self.hooks[flavour].items() if "token_response" in pts and not SILENT.get(n)}
            c.check(extra == want, "what hooks returned is not merged into exactly this token response", got=extra, expected=want, **detail)
            for name, point, adapter, config, t, args in LOG:
                if t == tag and point == "token_response":
                    w = {"x_tr_" + n: "%s|%s|%s" % (n, self.issuer, tag) for n, pts in self.hooks[flavour].items() if "token_request" in pts and not SILENT.get(n)}
                    g = {k: v for k, v in args[1].items() if k.startswith("x_")}
                    c.check(g == w, "what hooks returned at the token request is not merged into exactly this request's data", got=g, expected=w, **detail)
                    c.check(getattr(args[2], "id", None) == self.client.id and getattr(args[3], "id", None) == "u", "a hook got another client or user", **detail)
        else:
            c.check(all(k[5:] in self.hooks[flavour] for k in extra), "a hook of another grant acted on this response", **detail)
        if code:
            due = self.oidc[flavour] and "openid" in scopes
            if not c.check(("id_token" in j) == due, "an ID Token is given if and only if OpenID Connect was added to this provider and grant", **detail):
                return
            if due:
                c.count("id-tokens")
                got = R.verify_token(j["id_token"].encode(), self.key)
                if c.check(got is not None, "the ID Token is not signed with this provider's key", **detail):
                    cl = json.loads(got[1])
                    c.check(cl["iss"] == self.issuer and cl["exp"] - cl["iat"] == self.idlife and cl.get("nonce") == nonce and cl.get("site") == "site%d" % self.i and got[0].get("kid") == "k%d" % self.i,
                            "the ID Token carries another provider's or request's data", claims=cl, **detail)
        else:
            c.check("id_token" not in j, "an ID Token from a grant OpenID Connect was not added to", **detail)

    def some(self):
        r = self.rng.random()
        fl = self.rng.choice(["code", "code", "derived"])
        if r < 0.4:
            return self.authorize(fl, self.rng.choice([None, None, None, "scope", "uri"]))
        if r < 0.85:
            return self.token(fl, self.rng.choice([None, None, None, "verifier", "secret"]))
        return self.token(self.rng.choice(["refresh", "cc"]))


def configure(rng, c, sites, serial):
    """One more registration somewhere."""
    site = rng.choice(sites)
    r = rng.random()
    if r < 0.25:
        site.add_oidc(rng.choice(["code", "derived"]))
        c.count("registrations:oidc")
        return
    flavour = rng.choice(["code", "code", "derived", "refresh", "cc"])
    pts = [p for p in POINTS if rng.random() < 0.6] or [rng.choice(POINTS)]
    name = "h%d" % serial
    SILENT[name] = rng.random() < 0.2
    OVER[name] = rng.random() < 0.3 and not any(OVER.get(n) for s in sites for g in s.hooks.values() for n in g)
    cls = make_hook(name, pts)
    # the same hook class may be added to several providers
    for s in rng.sample(sites, 1 if rng.random() < 0.7 else rng.randint(1, len(sites))):
        s.add(flavour, name, pts, cls)
        c.count("registrations:" + flavour)


def run(c):
    rng = c.sub_rng("main")
    serial = 0
    for h in range(c.n(250, 2500)):
        del LOG[:]
        SILENT.clear()
        OVER.clear()
        n = rng.choice([1, 2, 2, 3, 4])
        sites = []
        alike = [x for x in ("issuer", "error_url", "lifespan", "idlife") if rng.random() < 0.3]
        early = rng.random() < 0.5   # hooks added to earlier providers before later ones exist
        for i in range(n):
            s = Site(c, rng, i, alike)
            sites.append(s)
            if early:
                for _ in range(rng.randrange(0, 3)):
                    serial += 1
                    configure(rng, c, sites, serial)
        for _ in range(rng.randrange(0, 5)):
            serial += 1
            configure(rng, c, sites, serial)
        for step in range(c.n(25, 60)):
            if rng.random() < 0.08:
                serial += 1
                configure(rng, c, sites, serial)
            tag, make, judge = rng.choice(sites).some()
            before = {s.i: len(s.s.log) for s in sites}
            st, rep = O.call(lambda m: m(), make, tag)
            c.case("history", (h, step, tag), sample=(tag, [s.hooks for s in sites]))
            judge(st, rep)
            me = int(tag.split("/")[0])
            for s in sites:
                c.check(s.i == me or len(s.s.log) == before[s.i], "a request to one provider reached another provider's storage", tag=tag, other=s.i, events=s.s.log[before[s.i]:])
        # concurrently, on all providers
        for rd in range(c.n(4, 20)):
            jobs = [rng.choice(sites).some() for _ in range(rng.randint(2, 6))]
            run_ = sched.Run([s.s for s in sites], rng.choice([("enter",), ("enter", "exit")]))
            try:
                run_.go([run_.job(t, m) for t, m, _ in jobs], sched.pct(rng, horizon=40) if rd % 2 else (lambda n, i, t: rng.randrange(n)))
            except sched.Stuck:
                c.fail("concurrent requests never end", trace=run_.trace)
                continue
            c.case("concurrent", hashlib.blake2b(repr((h, run_.trace)).encode(), digest_size=8).hexdigest(), sample=run_.trace[:12])
            for t, m, judge in jobs:
                judge(*run_.results[t])
            for s in sites:
                bad = [e for e in s.s.log if e.tag is not None and not e.tag.startswith("%d/" % s.i)]
                c.check(not bad, "a request to one provider reached another provider's storage", other=s.i, events=bad)
        stray = [x for x in LOG if x[4] is None]
        c.check(not stray, "a hook ran outside any request", hooks=[(x[0], x[1]) for x in stray])
    c.require("hook-calls", 1000)
    c.require("authorized", 300)
    c.require("tokens:code", 150)
    c.require("tokens:derived", 80)
    c.require("tokens:refresh", 40)
    c.require("tokens:cc", 40)
    c.require("id-tokens", 60)
    c.require("replaced", 60)
