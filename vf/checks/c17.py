"""C17: tokens never carry more scope than requested, permitted and granted."""
import itertools

from vf import authz as A
from vf import oauth as O

SCALE = 3
DEEP = 2.5
RULE = ("Scope requests (exhaustively all subsets of a small scope universe against all provider and client scope sets, and generated requests over look-alike names, repeated names and odd spacing) are sent "
        "through every grant, the authorization endpoint and the consent data, in histories where permissions change between requests and refresh tokens are narrowed. The scopes the storage is asked to issue "
        "and the announced scope are compared with set arithmetic over the request, the provider's list and the permissions at that moment. A case is one (grant, request, provider scopes, permitted, presented token scopes).")

URI = "https://c.example/cb"
NAMES = ["read", "read:all", "rea", "readwrite", "READ", "write", "openid", "openid2", "profile", "a", "b", "ab", "a.b", "a-b", "https://x.example/scope", "*", "a,b", "0", "é", "read;write", "a+b", "a%20b", "read:*", "a.*", "write:x", "offline_access", "email", "address", "phone", "admin", "all", "default"]
ALL = ["authorization_code", "refresh_token", "client_credentials"]


class World:
    def __init__(self, c, rng, name, supported):
        self.c, self.rng, self.supported = c, rng, list(supported)
        self.s = O.Store(name)
        self.user = self.s.add(O.User("u"))
        self.p = O.provider(self.s, self.supported)
        self.k = 0

    def client(self, permitted, default=None, id="c"):
        return self.s.add(O.Client(id, "sec", "client_secret_basic", permitted, [URI], ALL, ("code",), default))

    def key(self, kind, req, cl, extra=None):
        return (kind, req, tuple(self.supported), tuple(cl.scopes), None if cl.default is None else tuple(cl.default), extra)

    def outcome(self, kind, rep, mark, cl, requested, base, detail, what=("create_access_token", "create_refresh_token")):
        """requested: list or None/[] for not asked. base: set the grant is confined to when nothing is asked (None: permitted only)."""
        c, s = self.c, self.s
        issued = [e for e in s.since(mark, O.ISSUING)]
        detail.update(reply=rep, issued=issued)
        sup, perm = set(self.supported), set(cl.scopes)
        bad = requested and (not set(requested) <= sup or not set(requested) <= perm or (base is not None and not set(requested) <= base))
        if bad:
            c.count("refused:" + kind)
            c.check(not issued, "something was issued for a scope request that must be refused", **detail)
            c.check(not rep.is_token and rep.error == "invalid_scope", "the request was not refused with invalid_scope", **detail)
            return None
        if not c.check(rep.is_token, "a permitted scope request was refused", **detail):
            return None
        c.count("granted:" + kind)
        granted = None
        for e in issued:
            sc = e.args[2]
            g = set(sc or [])
            if e.name == "create_access_token":
                granted = g
            c.check(g <= perm, "a token was issued with a scope the client is not permitted", **detail)
            if base is not None:
                c.check(g <= base, "a token was issued with a scope that was not granted before", **detail)
            if requested:
                c.check(g == set(requested), "a token was issued with other scopes than the request was accepted with", **detail)
        c.check(granted is not None, "no access token was created", **detail)
        announced = rep.json.get("scope")
        asked = set(requested) if requested else (base if base is not None else set())
        if announced is not None:
            c.count("announced:" + kind)
            c.check(isinstance(announced, str) and set(announced.split(" ")) == granted, "the announced scope is not what was granted", **detail)
        else:
            c.check(not granted or granted == asked, "the grant differs from the request but the scope is not announced", **detail)
        return granted

    def text(self, names, odd=False):
        if names is None:
            return None
        if not odd:
            return " ".join(names)
        return self.rng.choice(["", " "]) + self.rng.choice([" ", "  ", "   "]).join(names) + self.rng.choice(["", "  "])

    def cc(self, cl, req, odd=False):
        c, s = self.c, self.s
        mark = s.mark()
        scope = self.text(req, odd)
        form = {"grant_type": "client_credentials"}
        if scope is not None:
            form["scope"] = scope
        detail = dict(grant="client_credentials", scope=scope, supported=self.supported, permitted=cl.scopes, default=cl.default)
        rep = O.must(c, self.p.token, O.token_req(cl, form), "client credentials", **detail)
        c.case("client_credentials", self.key("cc", scope, cl), sample=(scope, self.supported, cl.scopes))
        if rep:
            self.outcome("client_credentials", rep, mark, cl, req, None, detail)
        del s.log[:]

    def refresh(self, cl, have, req, odd=False, token=None):
        c, s = self.c, self.s
        self.k += 1
        token = token or s.put_refresh("rt%d" % self.k, cl, self.user, have)
        have = list(s.refresh[token].scopes)
        mark = s.mark()
        scope = self.text(req, odd)
        form = {"grant_type": "refresh_token", "refresh_token": token}
        if scope is not None:
            form["scope"] = scope
        detail = dict(grant="refresh_token", scope=scope, supported=self.supported, permitted=list(cl.scopes), token_scopes=have)
        rep = O.must(c, self.p.token, O.token_req(cl, form), "refresh", **detail)
        c.case("refresh_token", self.key("rt", scope, cl, tuple(have)), sample=(scope, self.supported, cl.scopes, have))
        out = None
        if rep:
            self.outcome("refresh_token", rep, mark, cl, req, set(have), detail)
            if rep.is_token:
                out = rep.json.get("refresh_token")
        del s.log[:]
        return out

    def code(self, cl, req, odd=False, redeem=True, change=None):
        c, s = self.c, self.s
        mark = s.mark()
        scope = self.text(req, odd)
        q = {"response_type": "code", "client_id": cl.id, "redirect_uri": URI, "scope": scope, "code_challenge": "v" * 43, "code_challenge_method": "plain"}
        detail = dict(grant="authorization", scope=scope, supported=self.supported, permitted=list(cl.scopes))
        rep = O.must(c, self.p.authorize, O.req(query=q, user=self.user), "authorization", **detail)
        c.case("authorization", self.key("az", scope, cl), sample=(scope, self.supported, cl.scopes))
        if rep is None:
            return None
        saved = s.since(mark, {"save_authorization_code"})
        d = dict(rep.params())
        detail.update(reply=rep, saved=saved)
        if not set(req) <= set(self.supported) or not set(req) <= set(cl.scopes):
            c.count("refused:authorization")
            c.check(not saved and "code" not in d, "a code was issued for a scope request that must be refused", **detail)
            c.check(d.get("error") == "invalid_scope", "the request was not refused with invalid_scope", **detail)
            return None
        c.count("granted:authorization")
        if not c.check(len(saved) == 1 and "code" in d, "a permitted scope request got no code", **detail):
            return None
        c.check(set(saved[0].args[1]["scopes"]) == set(req), "the code records other scopes than requested", **detail)
        out = None
        if redeem:
            if change is not None:
                cl.scopes = change   # tokens for a code carry what was recorded
            mark = s.mark()
            rep = O.must(c, self.p.token, O.token_req(cl, {"grant_type": "authorization_code", "code": d["code"], "redirect_uri": URI, "code_verifier": "v" * 43}), "redemption", **detail)
            issued = s.since(mark, O.ISSUING)
            detail.update(reply=rep, issued=issued)
            if rep and c.check(rep.is_token, "redeeming a valid code was refused", **detail):
                c.count("granted:code")
                for e in issued:
                    c.check(set(e.args[2] or []) == set(req), "tokens for a code do not carry exactly the recorded scopes", **detail)
                sc = rep.json.get("scope")
                c.check(sc is not None and set(sc.split(" ")) == set(req), "the announced scope is not the recorded one", **detail)
                out = rep.json.get("refresh_token")
        s.codes.clear()
        del s.log[:]
        return out

    def consent(self, cl, req, odd=False):
        c = self.c
        scope = self.text(req, odd)
        q = {"response_type": "code", "client_id": cl.id, "redirect_uri": URI, "scope": scope, "code_challenge": "v" * 43, "code_challenge_method": "plain"}
        detail = dict(scope=scope, supported=self.supported, permitted=list(cl.scopes))
        try:
            got = O.run(self.p.authorize.get_consent_data(O.req(query=q, user=self.user)))
        except Exception as exc:
            c.fail("preparing consent raised %r" % exc, **detail)
            return
        c.case("consent", self.key("consent", scope, cl), sample=(scope, cl.scopes))
        if not isinstance(got, dict):
            d = dict(O.Reply(got).params())
            # refusing an unsupported or forbidden scope already here is not narrowing
            c.check(d.get("error") == "invalid_scope" and not set(req) <= set(self.supported) & set(cl.scopes), "consent data was refused for a valid request", got=O.Reply(got), **detail)
            c.count("consent-refused")
            return
        c.count("consent")
        if not c.check({"scopes", "client"} <= set(got), "consent data lacks the client or the scopes", got=got, **detail):
            return
        listed = [str(x) for x in got["scopes"]]
        c.check(set(listed) == set(req) & set(cl.scopes), "consent data does not list exactly the requested scopes the client is permitted", listed=listed, **detail)
        c.check(getattr(got["client"], "id", None) == cl.id, "consent data names another client", **detail)
        del self.s.log[:]


def subsets(xs):
    return [list(t) for n in range(len(xs) + 1) for t in itertools.combinations(xs, n)]


def run(c):
    rng = c.sub_rng("main")
    # exhaustive over a small universe
    uni = ["read", "readx", "x"]
    for sup in subsets(uni):
        w = World(c, rng, "s", sup)
        for perm in subsets(uni):
            cl = w.client(perm)
            for req in subsets(uni):
                w.cc(cl, req or None)
                if req:
                    w.code(cl, req)
                    w.consent(cl, req)
                for have in subsets(uni) if c.thorough or len(perm) > 1 else [uni]:
                    w.refresh(cl, have, req or None)
    # generated
    for wi in range(c.n(12, 150)):
        w = World(c, rng, "g%d" % wi, rng.sample(NAMES, rng.randint(4, 18)))
        for _ in range(c.n(25, 60)):
            cl = w.client(rng.sample(NAMES, rng.randint(0, 14)))
            if rng.random() < 0.3 and cl.scopes:
                cl.default = rng.sample(cl.scopes, rng.randint(0, len(cl.scopes)))
            pool = [x for x in cl.scopes if x in w.supported] or NAMES
            for _ in range(6):
                src = pool if rng.random() < 0.6 else NAMES
                req = rng.sample(src, min(len(src), rng.choice([1, 2, 3, 4, 5, 8, 14])))
                if rng.random() < 0.3:
                    req = req + [rng.choice(req)]
                odd = rng.random() < 0.3
                w.cc(cl, rng.choice([req, req, None]), odd)
                w.code(cl, req, odd, redeem=rng.random() < 0.7)
                w.consent(cl, req, odd)
                have = rng.sample(NAMES, rng.randint(0, 8)) if rng.random() < 0.3 else list(dict.fromkeys(req + rng.sample(NAMES, 3)))
                w.refresh(cl, have, rng.choice([req, req, None]), odd)
    for i, force in enumerate(O.forcings()):
        w = World(c, rng, "n%d" % i, rng.sample(NAMES, 16))
        cl = w.client(rng.sample(NAMES, 12))
        with O.forced(*force):
            for _ in range(5):
                pool = [x for x in cl.scopes if x in w.supported] or NAMES
                for src in (pool, NAMES):
                    req = rng.sample(src, min(len(src), rng.choice([1, 2, 3])))
                    w.cc(cl, req)
                    w.code(cl, req, redeem=True)
                    w.refresh(cl, rng.sample(pool, min(2, len(pool))), rng.choice([req, req, None]))
    # histories: one client, permissions change, tokens are narrowed step by step
    for h in range(c.n(20, 300)):
        w = World(c, rng, "h%d" % h, NAMES)
        cl = w.client(list(NAMES))
        tokens = []
        for _ in range(c.n(60, 150)):
            r = rng.random()
            if r < 0.15:
                cl.scopes = rng.sample(NAMES, rng.randint(0, len(NAMES)))
                c.count("permission-changes")
            elif r < 0.35:
                full = list(cl.scopes)
                t = w.code(cl, rng.sample(full, rng.randint(1, len(full))) if full else ["read"], change=rng.choice([None, [], rng.sample(NAMES, 5)]))
                cl.scopes = full
                if t:
                    tokens.append(t)
            elif r < 0.5:
                w.cc(cl, rng.sample(NAMES, rng.choice([1, 2, 3, 9])) if rng.random() < 0.7 else None)
            elif r < 0.6:
                w.consent(cl, rng.sample(NAMES, rng.randint(1, 6)))
            elif tokens:
                t = rng.choice(tokens[-6:])
                have = w.s.refresh[t].scopes
                req = None
                if rng.random() < 0.7:
                    req = rng.sample(have, rng.randint(1, len(have))) if have and rng.random() < 0.7 else rng.sample(NAMES, rng.randint(1, 4))
                n = w.refresh(cl, None, req, token=t)
                if n:
                    tokens.append(n)
    for k in ("client_credentials", "refresh_token", "authorization"):
        c.require("granted:" + k, 200)
        c.require("refused:" + k, 200)
    c.require("granted:code", 200)
    c.require("consent", 200)
    c.require("announced:client_credentials", 20)
    c.require("announced:refresh_token", 20)
