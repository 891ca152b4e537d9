"""C18: refresh tokens work only for their client, user, lifetime and scopes, along every chain."""
import datetime

from vf import clock, gen
from vf import oauth as O

SCALE = 3
DEEP = 3
RULE = ("Histories of refresh requests over several clients and users: every token issued is recorded with its lineage (root client, user, scopes), chains are continued from any token, presented by the right or "
        "another client, with near-miss token texts, narrowed, widened or omitted scopes, at controlled instants around the expiration in every host time zone, with users deleted and re-created, tokens revoked and "
        "permissions changed in between. Each outcome is compared with an executable specification and every storage operation with the presented token; the lineage invariant (same client and user, "
        "scopes never regained) is checked on every token created. A case is one (presented token, client, scope request, instant, zone).")

EPOCH = datetime.datetime(1970, 1, 1)
NAMES = ["openid", "profile", "email", "a", "ab", "b", "offline_access", "s:1", "s:2", "s:3", "s:10", "s:11"]
URI = "https://c.example/cb"


def dt(t, us=0):
    return EPOCH + datetime.timedelta(seconds=t, microseconds=us)


class World:
    def __init__(self, c, rng, name, lifespan):
        self.c, self.rng, self.lifespan = c, rng, lifespan
        self.s = O.Store(name)
        self.users = [O.User(u) for u in O.UIDS[:4]]
        self.s.add(*self.users)
        self.p = O.provider(self.s, NAMES, token_lifespan=lifespan)
        ids = O.cids(rng, 5)
        for i, (m, g) in enumerate([("client_secret_basic", True), ("client_secret_post", True), ("none", True), ("client_secret_basic", True), ("client_secret_post", False)]):
            self.s.add(O.Client(ids[i], None if m == "none" else "s%d" % i, m, NAMES, [URI], ["authorization_code"] + (["refresh_token"] if g else [])))
        self.root = {}
        self.now = 1_600_000_000
        self.zone = "UTC"
        self.s.refresh_expiration = lambda: dt(self.now + 1000)
        self.k = 0

    def seed(self, client=None, user=None, scopes=None, expiration=None):
        self.k += 1
        able = [x for x in self.s.clients.values() if "refresh_token" in x.grants]
        client = client or self.rng.choice(able or list(self.s.clients.values()))
        user = user or self.rng.choice(self.users)
        t = self.s.put_refresh("seed-%s-%d" % (self.s.name, self.k), client, user, scopes or self.rng.sample(NAMES, self.rng.choice([1, 2, 3, 4, 5, 6, 9, 12])), expiration)
        self.root[t] = (client.id, user.id, frozenset(self.s.refresh[t].scopes))
        return t

    def flow(self, client, user, scopes):
        """A refresh token obtained through the authorization-code flow."""
        q = {"response_type": "code", "client_id": client.id, "redirect_uri": URI, "scope": " ".join(scopes), "code_challenge": "v" * 43, "code_challenge_method": "plain"}
        rep = O.must(self.c, self.p.authorize, O.req(query=q, user=user), "authorization")
        code = dict(rep.params()).get("code")
        with clock.at(self.now, 0, self.zone):
            rep = O.must(self.c, self.p.token, O.token_req(client, {"grant_type": "authorization_code", "code": code, "redirect_uri": URI, "code_verifier": "v" * 43}), "redemption")
        if rep is None or not rep.is_token or "refresh_token" not in rep.json:
            return None
        t = rep.json["refresh_token"]
        self.root[t] = (client.id, user.id, frozenset(scopes))
        del self.s.log[:]
        return t

    def present(self, client, token, scope=None, kind="chain", nsec=0, style="qp"):
        c, s = self.c, self.s
        rec = s.refresh.get(token)
        why = []
        req = scope.split(" ") if scope else []
        if "refresh_token" not in client.grants:
            why.append("not registered")
        if rec is None:
            why.append("no such token")
        else:
            if rec.client_id != client.id:
                why.append("other client")
            if rec.user_id not in s.users:
                why.append("user gone")
            if dt(self.now, nsec // 1000) >= rec.expiration:
                why.append("expired")
            if not set(req) <= set(rec.scopes):
                why.append("broader scope")
            if not set(req) <= set(NAMES):
                why.append("unsupported scope")
            if not set(req) <= set(client.scopes):
                why.append("forbidden scope")
        form = {"grant_type": "refresh_token", "refresh_token": token}
        if scope is not None:
            form["scope"] = scope
        record = dict(vars(rec)) if rec else None
        detail = dict(token=token, record=record, client=client, permitted=list(client.scopes), scope=scope, now=self.now, nsec=nsec, zone=self.zone, must_refuse=why, root=self.root.get(token))
        named = None
        if client.method == "client_secret_basic" and self.rng.random() < 0.15:
            named = rec.client_id if rec is not None and rec.client_id != client.id else self.rng.choice([x for x in s.clients if x != client.id] or [None])
            c.count("other-client-named")
        detail["named"] = named
        mark = s.mark()
        with clock.at(self.now, nsec, self.zone):
            rep = O.must(c, self.p.token, O.token_req(client, form, style=style, named=named), "refresh", **detail)
        c.case(kind, (token if rec is None else sorted(map(str, record.items())), client.id, scope, self.now, nsec, self.zone, why), sample=(token, client, scope, why))
        if rep is None:
            return None
        issued = s.since(mark, O.ISSUING)
        detail.update(reply=rep, issued=issued)
        if why:
            c.count("refused")
            if len(why) == 1:
                c.count("only:" + why[0])
            c.check(not rep.is_token and rep.status in (400, 401) and rep.error in O.OAUTH_ERRORS, "a refresh that must be refused was not (%s)" % ", ".join(why), **detail)
            c.check(not issued, "something was issued for a refresh that must be refused (%s)" % ", ".join(why), **detail)
            del s.log[:]
            return None
        if named and not rep.is_token and not issued:
            return None                     # refusing contradictory client IDs is as good an answer
        c.count("refreshed")
        if not c.check(rep.is_token, "a refresh meeting the conditions was refused", **detail):
            return None
        j = rep.json
        ats = [e for e in issued if e.name == "create_access_token"]
        c.check(len(ats) == 1, "not exactly one access token was created", **detail)
        c.check(j["access_token"] in s.access and s.access[j["access_token"]][:2] == (("client", client.id), ("user", record["user_id"])), "the response does not carry the created access token", **detail)
        for e in issued:
            cl, us, sc = e.args
            c.check(cl == ("client", record["client_id"]) and us == ("user", record["user_id"]), "a refreshed token is for another client or user", **detail)
            c.check(set(sc or []) <= set(record["scopes"]), "a refreshed token has scopes the presented token does not have", **detail)
            c.check(not req or set(sc or []) <= set(req), "a refreshed token has a scope that was given up in this request", **detail)
        c.check(j.get("expires_in") == self.lifespan, "expires_in is not the configured lifetime", **detail)
        full = [x for x in req or record["scopes"] if x in client.scopes]
        for e in issued:
            c.check(O.same_scopes(e.args[2], full), "a refreshed token lacks scopes it should have", expected=full, **detail)
        new = j.get("refresh_token")
        c.check(isinstance(new, str) and new in s.refresh, "a refresh ends without a refresh token to go on with", **detail)
        if new is not None and new != token:
            if c.check(new in s.refresh, "the response carries a refresh token that was not created", **detail):
                n = s.refresh[new]
                root = self.root.get(token, (record["client_id"], record["user_id"], frozenset(record["scopes"])))
                c.check((n.client_id, n.user_id) == root[:2], "the chain switched client or user", new=vars(n), **detail)
                c.check(set(n.scopes) <= root[2] and set(n.scopes) <= set(record["scopes"]), "the chain regained scopes", new=vars(n), **detail)
                self.root[new] = (root[0], root[1], frozenset(n.scopes) & root[2])
                c.count("chain-links")
        del s.log[:]
        return new


def singles(c, rng, name, n):
    w = World(c, rng, name, 3600)
    for cl in list(w.s.clients.values())[:n]:
        t = w.seed(cl, scopes=["a", "ab", "openid"])
        own = w.s.refresh[t].user_id
        w.present(cl, t, "a", kind="single")
        for other in w.s.clients.values():
            w.present(other, t, rng.choice([None, "a"]), kind="single")
        for x in gen.near_misses(t)[:: 3]:
            if x and x not in w.s.refresh:
                w.present(cl, x, kind="single")
        for sc in ("b", "a b", "profile", "A", "a ab openid b", "op", "openid openid2"):
            w.present(cl, t, sc, kind="single")
        user = w.s.users.pop(own)
        w.present(cl, t, kind="single")
        # nobody stands in for a missing user: not one named like the client, nor the first, nor the last
        if cl.id not in w.s.users:
            w.s.add(O.User(cl.id))
            for odd in (own, "", None, 0):
                w.s.refresh[t].user_id = odd
                w.present(cl, t, rng.choice([None, "a"]), kind="single")
            w.s.refresh[t].user_id = own
            del w.s.users[cl.id]
        w.s.add(user)
        g = cl.grants
        cl.grants = rng.choice([["authorization_code"], [], ["refresh"], ["Refresh_Token", "refresh_token2"]])
        w.present(cl, t, kind="single")
        cl.grants = g
        w.present(cl, t, "ab", kind="single")
        w.now += 1001
        w.s.refresh[t].expiration = dt(w.now - rng.choice([0, 1, 500]))
        w.present(cl, t, kind="single")


def run(c):
    clock.require()
    rng = c.sub_rng("main")
    # instants around the expiration, in every zone
    w = World(c, rng, "t", 3600)
    for zone in clock.ZONES:
        w.zone = zone
        for _ in range(c.n(4, 20)):
            exp = rng.choice([rng.randrange(10 ** 6, 2 ** 32), 1710054000, 1729994400])
            us = rng.choice([0, 0, 1, 500000])
            for delta, ns in ((-86400 * 400, 0), (-50400, 0), (-43200, 0), (-3600, 0), (-1, 0), (-1, 900000000), (0, 0), (0, 2000), (1, 0), (3600, 0), (43200, 0), (50400, 0)):
                w.now = exp + delta
                t = w.seed(expiration=dt(exp, us))
                w.present(w.s.clients[w.s.refresh[t].client_id], t, kind="expiry", nsec=ns)
    # each condition violated alone
    for i in range(c.n(6, 40)):
        singles(c, rng, "f%d" % i, 4)
    for force in O.forcings():
        with O.forced(*force):
            singles(c, rng, "n", 1)
    # histories
    for h in range(c.n(30, 400)):
        w = World(c, rng, "h%d" % h, rng.choice([3600, 5, 86400]))
        live = [w.seed() for _ in range(4)]
        gone = []
        for _ in range(c.n(80, 200)):
            r = rng.random()
            if r < 0.05:
                w.now += rng.choice([1, 10, 300, 999, 1000, 1001])
            elif r < 0.08:
                u = rng.choice(w.users)
                if w.s.users.pop(u.id, None) is None:
                    w.s.add(u)
            elif r < 0.12:
                cl = rng.choice(list(w.s.clients.values()))
                cl.scopes = rng.sample(NAMES, rng.randint(0, 12)) if rng.random() < 0.6 else list(NAMES)
            elif r < 0.14:
                cl = rng.choice(list(w.s.clients.values()))
                cl.grants = ["authorization_code"] + (["refresh_token"] if rng.random() < 0.7 else [])
            elif r < 0.17 and live:
                t = live.pop(rng.randrange(len(live)))
                w.s.refresh.pop(t, None)
                gone.append(t)
            elif r < 0.20:
                live.append(w.seed())
            elif r < 0.24:
                cl = rng.choice([x for x in w.s.clients.values()])
                u = rng.choice(w.users)
                if cl.scopes and u.id in w.s.users:
                    t = w.flow(cl, u, rng.sample(cl.scopes, rng.randint(1, len(cl.scopes))))
                    if t:
                        live.append(t)
            w.zone = rng.choice(clock.ZONES) if rng.random() < 0.2 else w.zone
            if not live:
                live.append(w.seed())
            t = rng.choice(live[-8:])
            rec = w.s.refresh[t]
            cl = w.s.clients[rec.client_id]
            r = rng.random()
            token = t
            if r < 0.12:
                cl = rng.choice(list(w.s.clients.values()))
            elif r < 0.2:
                token = rng.choice([x for x in gen.near_misses(t) + gone if x and x not in w.s.refresh])
            r = rng.random()
            scope = None
            if r < 0.35 and rec.scopes:
                scope = " ".join(rng.sample(rec.scopes, rng.randint(1, len(rec.scopes))))
            elif r < 0.5:
                scope = " ".join(rng.sample(NAMES, rng.randint(1, 4)))
            elif r < 0.55:
                scope = " ".join(rec.scopes[:1] + [rng.choice(["admin", "A", "a,b", "openid2", "*"])])
            new = w.present(cl, token, scope, nsec=rng.choice([0, 0, 1000, 999000000 if False else 500000000]))
            if new and new != token:
                live.append(new)
                if rng.random() < 0.5 and token in live:
                    live.remove(token)
    c.require("refreshed", 600)
    c.require("refused", 400)
    c.require("chain-links", 300)
    for k in ("other client", "user gone", "expired", "no such token", "broader scope", "not registered"):
        c.require("only:" + k, 3)
