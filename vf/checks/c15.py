"""C15: a code is redeemed only by its client, redirect URI and PKCE verifier, while unexpired, and yields what it records."""
import base64
import datetime
import hashlib

from vf import authz as A, clock, gen
from vf import oauth as O
from vf.checks.c13 import URIS

SCALE = 3
DEEP = 2.2
RULE = ("Codes stored for every combination of client, user, redirect URI, scope set, challenge and method are presented with right and near-miss codes, clients, redirect URIs and verifiers (prefix, case, "
        "padding, look-alike, other encodings of the hash, the challenge itself, the other method's answer), at controlled instants around the expiration in every host time zone, with registrations and "
        "users changing between issue and redemption, both for records placed in storage and for codes obtained through the authorization endpoint. An executable specification of the conditions decides; "
        "every storage operation and the response are compared with the record. A case is one (record, request, instant, zone).")

EPOCH = datetime.datetime(1970, 1, 1)
SUPPORTED = ["openid", "profile", "email", "x", "y", "offline_access"] + ["urn:s:%d" % i for i in range(14)]
METHODS = ["client_secret_basic", "client_secret_post", "none"]


def matches(method, challenge, verifier):
    if method == "plain":
        return verifier == challenge
    if method == "S256":
        try:
            raw = verifier.encode("ascii")
        except UnicodeEncodeError:
            return False
        return base64.urlsafe_b64encode(hashlib.sha256(raw).digest()).rstrip(b"=").decode() == challenge
    return False


class World:
    def __init__(self, c, rng, name, lifespan=3600, oidc=False):
        self.c, self.rng, self.lifespan = c, rng, lifespan
        self.s = O.Store(name)
        self.users = [self.s.add(O.User(u)) for u in O.UIDS]
        self.p = O.provider(self.s, SUPPORTED, token_lifespan=lifespan, oidc=oidc)
        self.k = 0
        ids = O.cids(rng, 6)
        for i in range(6):
            m = METHODS[i % 3]
            self.s.add(O.Client(ids[i], None if m == "none" else "sec%d" % i, m, SUPPORTED, rng.sample(URIS, 4),
                                ["authorization_code"] + (["refresh_token"] if i % 2 else []) + (["client_credentials"] if i == 2 else [])))

    def put(self, client=None, user=None, uri=None, scopes=None, ver=None, method=None, expiration=None, challenge=None):
        rng = self.rng
        client = client or rng.choice(list(self.s.clients.values()))
        user = user or rng.choice(self.users)
        ver = ver or O.verifier(rng)
        method = method or rng.choice(["plain", "S256"])
        if challenge is None:
            challenge = ver if method == "plain" else O.s256(ver)
        self.k += 1
        code = "%s-%d-%s" % (self.s.name, self.k, O.verifier(rng, 40))
        if rng.random() < 0.5:
            code = (code + O.verifier(rng, 64))[:64]   # as long as those the library makes
        self.s.put_code(code, client, user, uri or rng.choice(client.uris), scopes if scopes is not None else rng.sample(SUPPORTED, rng.choice([0, 1, 2, 3, 3, 4, 5, 9, 17, 20])), challenge, method, expiration=expiration or O.FAR)
        return code, ver

    def redeem(self, client, form, kind, now=None, zone="UTC", style="qp", nsec=0):
        """Present a code; judge by the storage as it is now."""
        c, s = self.c, self.s
        form = {"grant_type": "authorization_code", **form}
        rec = s.codes.get(form.get("code") or "")
        record = dict(vars(rec)) if rec else None
        why = []
        if rec is None:
            why.append("no such code")
        else:
            if rec.client_id != client.id:
                why.append("other client")
            if form.get("redirect_uri") != rec.redirect_uri:
                why.append("other redirect_uri")
            if form.get("redirect_uri") not in client.uris:
                why.append("redirect_uri not registered")
            if not form.get("code_verifier") or not matches(rec.code_challenge_method, rec.code_challenge, form["code_verifier"]):
                why.append("verifier")
            if rec.user_id not in s.users:
                why.append("user gone")
            if now is not None and EPOCH + datetime.timedelta(seconds=now, microseconds=nsec // 1000) >= rec.expiration:
                why.append("expired")
        named = None
        if client.method == "client_secret_basic" and self.rng.random() < 0.15:
            named = rec.client_id if rec is not None and rec.client_id != client.id else self.rng.choice([x for x in s.clients if x != client.id])
            c.count("other-client-named")
        mark = s.mark()
        r = O.token_req(client, form, style=style, named=named)
        detail = dict(record=record, form=form, client=dict(vars(client)), now=now, nsec=nsec, zone=zone, must_refuse=why, named=named)
        if now is not None:
            with clock.at(now, nsec, zone):
                rep = O.must(c, self.p.token, r, "redemption", **detail)
        else:
            rep = O.must(c, self.p.token, r, "redemption", **detail)
        c.case(kind, (form, client.id, why, now, zone, record and sorted(map(str, record.items()))), sample=(form, client, why, now, zone))
        if rep is None:
            return None
        issued = s.since(mark, O.ISSUING)
        detail.update(reply=rep, issued=issued)
        if why:
            c.count("refused")
            for w in why if len(why) == 1 else ():
                c.count("only:" + w)
            c.check(not rep.is_token and rep.status in (400, 401), "tokens were issued although the request must be refused (%s)" % ", ".join(why), **detail)
            c.check(not issued, "something was created for a request that must be refused (%s)" % ", ".join(why), **detail)
            c.check(rep.error in O.OAUTH_ERRORS, "the refusal has no registered error code", **detail)
            return rep
        if named and not rep.is_token and not issued:
            return rep                      # refusing contradictory client IDs is as good an answer
        c.count("redeemed")
        if not c.check(rep.is_token, "a request meeting all conditions was refused", **detail):
            return rep
        at = [e for e in issued if e.name == "create_access_token"]
        rt = [e for e in issued if e.name == "create_refresh_token"]
        c.check(len(at) == 1 and len(rt) <= 1 and len(at) + len(rt) == len(issued), "not exactly one access token and at most one refresh token were created", **detail)
        for e in at + rt:
            cl, us, sc = e.args
            c.check(cl == ("client", rec.client_id), "token created for another client", **detail)
            c.check(us == ("user", record["user_id"]), "token created for another user", **detail)
            c.check(O.same_scopes(sc, record["scopes"]), "token created with other scopes than recorded", **detail)
        j = rep.json
        c.check(j.get("access_token") in s.access and s.access[j["access_token"]][:2] == (("client", client.id), ("user", record["user_id"])), "the response does not carry the created access token", **detail)
        c.check(j.get("expires_in") == self.lifespan and type(j.get("expires_in")) is type(self.lifespan), "expires_in is not the configured lifetime", **detail)
        c.check(O.same_scopes(str(j.get("scope", "")).split(), record["scopes"]), "the announced scope is not the recorded one", **detail)
        if "refresh_token" in client.grants:
            c.count("with-refresh")
            c.check(len(rt) == 1 and "refresh_token" in j, "a client that may use refresh tokens got none", **detail)
        else:
            c.count("without-refresh")
            c.check("refresh_token" not in j and not rt, "a refresh token was given to a client that may not use one", **detail)
        if "refresh_token" in j:
            c.check(len(rt) == 1 and j["refresh_token"] in s.refresh and s.refresh[j["refresh_token"]].client_id == client.id, "the response carries a refresh token that was not created", **detail)
        return rep

    def clean(self):
        self.s.codes.clear(); self.s.access.clear(); self.s.refresh.clear()
        del self.s.log[:]


def verifier_attacks(rng, ver, method):
    h = hashlib.sha256(ver.encode()).digest()
    ch = O.s256(ver)
    out = gen.near_misses(ver) + [ch, ch + "=", base64.b64encode(h).decode(), h.hex(), O.s256(ch), base64.b64encode(h).decode().rstrip("="), ch[:42], ch + "A", ch.swapcase(), "S256", "plain", ver + "=", "%" + ver,
                                  ver[:43], ver[:128], ver.replace("-", "+"), ver + ver[:1], O.verifier(rng), "é" * 43, ver + "é", "\u212a" + ver[1:], "None", ver.encode().hex(), O.s256(ver + "="), ver[:-1] + "%"]
    if method == "S256":
        # a verifier whose hash only starts like the challenge does not exist in practice; alter single characters everywhere
        for i in range(0, len(ver), 5):
            out.append(ver[:i] + rng.choice(O.VCHARS.replace(ver[i], "")) + ver[i + 1:])
    else:
        for i in range(len(ver)):
            out.append(ver[:i] + rng.choice(O.VCHARS.replace(ver[i], "")) + ver[i + 1:])
    return out


def company(w, rng, cls):
    for method in ("plain", "S256"):
        cl, other = rng.sample(cls, 2)
        for what in ("good", "verifier", "verifier-hash", "uri", "client", "user", "code", "missing", "expired"):
            code, ver = w.put(cl, ver=O.verifier(rng, 50), method=method)
            rec = w.s.codes[code]
            f = {"code": code, "redirect_uri": rec.redirect_uri, "code_verifier": ver}
            user = w.s.users[rec.user_id]
            by, now = cl, None
            if what == "verifier":
                f["code_verifier"] = rng.choice([O.verifier(rng, 50), ver[:-1], "x", rec.code_challenge + "="])
            elif what == "verifier-hash":
                f["code_verifier"] = O.s256(ver)
            elif what == "uri":
                f["redirect_uri"] = rng.choice([u for u in cl.uris if u != rec.redirect_uri] + [rec.redirect_uri + "/"])
            elif what == "client":
                by = other
                if rec.redirect_uri not in other.uris:
                    other.uris.append(rec.redirect_uri)
            elif what == "user":
                del w.s.users[user.id]
            elif what == "code":
                f["code"] = rng.choice([code[:-1], code + "x"])
            elif what == "missing":
                f.pop(rng.choice(sorted(f)))
            elif what == "expired":
                rec.expiration = EPOCH + datetime.timedelta(seconds=1700000000)
                now = 1700000000 + rng.choice([0, 1, 60])
            w.redeem(by, f, "company", now=now)
            w.s.add(user)


def run(c):
    clock.require()
    rng = c.sub_rng("main")
    for wi in range(c.n(4, 24)):
        w = World(c, rng, "w%d" % wi, rng.choice([3600, 1, 0, 60, 86400, 600, 31536000]), oidc=False)
        cls = list(w.s.clients.values())
        # right requests
        for _ in range(c.n(60, 200)):
            cl = rng.choice(cls)
            code, ver = w.put(cl)
            if rng.random() < 0.2:           # the registration changes meanwhile
                cl.grants = [g for g in cl.grants if g != "refresh_token"] if "refresh_token" in cl.grants else cl.grants + ["refresh_token"]
            w.redeem(cl, {"code": code, "redirect_uri": w.s.codes[code].redirect_uri, "code_verifier": ver}, "good", style=rng.choice(["qp", "pct", "all", "low", "raw"]))
        w.clean()
        # verifier attacks, every position
        for method in ("plain", "S256"):
            for n in (43, 44, 128) if wi == 0 or c.thorough else (rng.randint(43, 128),):
                cl = rng.choice(cls)
                ver = O.verifier(rng, n)
                for bad in verifier_attacks(rng, ver, method):
                    code, _ = w.put(cl, ver=ver, method=method)
                    w.redeem(cl, {"code": code, "redirect_uri": w.s.codes[code].redirect_uri, "code_verifier": bad}, "verifier")
                code, _ = w.put(cl, ver=ver, method=method)
                w.redeem(cl, {"code": code, "redirect_uri": w.s.codes[code].redirect_uri, "code_verifier": ver}, "verifier")
                w.clean()
        odd_hash = [x for x in ("%043d" % i for i in range(200)) if set("-_") & set(O.s256(x))][:4]
        # stored method / challenge pairs that nothing may match, or only by the stored method
        for method, ch, ver in [("S512", "v" * 43, "v" * 43), ("s256", O.s256("v" * 43), "v" * 43), ("PLAIN", "v" * 43, "v" * 43), ("", "v" * 43, "v" * 43),
                                ("plain", O.s256("v" * 43), "v" * 43), ("S256", "v" * 43, "v" * 43), ("S256", O.s256("v" * 43) + "=", "v" * 43), ("S256", O.s256("v" * 43)[:-1], "v" * 43),
                                ("S256", hashlib.sha256(b"v" * 43).hexdigest(), "v" * 43), ("plain", "", "x"), ("S256", "", "x")] + [("S256", x, "v" * 43) for x in rng.sample(gen.near_misses(O.s256("v" * 43)), 12) + [O.s256("v" * 43).swapcase(), O.s256("v" * 43).lower(), O.s256("v" * 43).upper()]] + [("S256", O.s256(x).replace("-", "+").replace("_", "/"), x) for x in odd_hash]:
            cl = rng.choice(cls)
            code, _ = w.put(cl, ver=ver)
            rec = w.s.codes[code]
            rec.code_challenge_method, rec.code_challenge = method, ch
            w.redeem(cl, {"code": code, "redirect_uri": rec.redirect_uri, "code_verifier": ver}, "stored-method")
        # other client, URI, code
        for _ in range(c.n(60, 300)):
            cl, other = rng.sample(cls, 2)
            code, ver = w.put(cl)
            rec = w.s.codes[code]
            r = rng.random()
            if r < 0.25:
                if rec.redirect_uri not in other.uris and rng.random() < 0.7:
                    other.uris.append(rec.redirect_uri)
                w.redeem(other, {"code": code, "redirect_uri": rec.redirect_uri, "code_verifier": ver}, "other-client")
                w.redeem(cl, {"code": code, "redirect_uri": rec.redirect_uri, "code_verifier": ver}, "after-other-client") if code in w.s.codes else None
            elif r < 0.5:
                bad = rng.choice([u for u in cl.uris if u != rec.redirect_uri] + gen.near_misses(rec.redirect_uri) + A.uri_variants(rec.redirect_uri))
                if rng.random() < 0.5 and bad and bad not in cl.uris:
                    cl.uris.append(bad)   # registered, but not the one of the code
                w.redeem(cl, {"code": code, "redirect_uri": bad, "code_verifier": ver}, "other-uri")
            elif r < 0.6:
                cl.uris.remove(rec.redirect_uri)
                w.redeem(cl, {"code": code, "redirect_uri": rec.redirect_uri, "code_verifier": ver}, "unregistered-uri")
                cl.uris.append(rec.redirect_uri)
            elif r < 0.85:
                for bad in rng.sample(gen.near_misses(code), 4):
                    w.redeem(cl, {"code": bad, "redirect_uri": rec.redirect_uri, "code_verifier": ver}, "other-code")
            elif r < 0.92:
                u = w.s.users.pop(rec.user_id)
                w.redeem(cl, {"code": code, "redirect_uri": rec.redirect_uri, "code_verifier": ver}, "user-gone")
                w.s.add(u)
            else:
                f = {"code": code, "redirect_uri": rec.redirect_uri, "code_verifier": ver}
                f.pop(rng.choice(sorted(f)))
                w.redeem(cl, f, "missing")
            if len(cl.uris) > 12:
                cl.uris = rng.sample(URIS, 4)
        w.clean()
        # each of these in the company of each parameter or header that means nothing
        if wi < c.n(1, 6):
            for force in O.forcings():
                with O.forced(*force):
                    company(w, rng, cls)
                w.clean()
        # several records side by side: nothing is taken from another record
        for _ in range(c.n(15, 80)):
            recs = []
            for _ in range(6):
                cl = rng.choice(cls)
                code, ver = w.put(cl)
                recs.append((cl, code, ver, w.s.codes[code].redirect_uri))
            for _ in range(8):
                a, b, d, e = (rng.choice(recs) for _ in range(4))
                if rng.random() < 0.5:
                    a = b = d = e
                w.redeem(a[0], {"code": b[1], "redirect_uri": d[3], "code_verifier": e[2]}, "mixed-records")
            w.clean()
        # expiration in every zone
        for zone in clock.ZONES if wi < 2 or c.thorough else rng.sample(clock.ZONES, 4):
            for _ in range(c.n(3, 12)):
                exp = rng.choice([rng.randrange(10 ** 6, 2 ** 32), 1 << 31, 1710054000, 1729994400, 1743296400]) + 0
                us = rng.choice([0, 0, 500000, 1])
                for delta, ns in ((-86400 * 30, 0), (-50400, 0), (-43200, 0), (-3601, 0), (-3600, 0), (-2, 0), (-1, 0), (-1, 900000000), (0, 0), (0, 2000), (1, 0), (3599, 0), (3600, 0), (43200, 0), (50400, 0), (86400 * 400, 0)):
                    if not c.thorough and delta not in (-1, 0) and rng.random() < 0.5:
                        continue
                    cl = rng.choice(cls)
                    code, ver = w.put(cl, expiration=EPOCH + datetime.timedelta(seconds=exp, microseconds=us))
                    w.redeem(cl, {"code": code, "redirect_uri": w.s.codes[code].redirect_uri, "code_verifier": ver}, "expiry", now=exp + delta, nsec=ns, zone=zone)
            w.clean()
    # through the real authorization endpoint, with changes in between
    for h in range(c.n(4, 40)):
        w = World(c, rng, "f%d" % h, rng.choice([3600, 77]))
        cls = list(w.s.clients.values())
        now = 1_700_000_000
        w.s.code_expiration = lambda: EPOCH + datetime.timedelta(seconds=now + 60)
        for _ in range(c.n(60, 300)):
            cl, user = rng.choice(cls), rng.choice(w.users)
            ver, method = O.verifier(rng), rng.choice(["plain", "S256"])
            uri = rng.choice(cl.uris)
            sc = rng.sample(SUPPORTED, rng.choice([1, 2, 3, 5, 12]))
            q = {"response_type": "code", "client_id": cl.id, "redirect_uri": uri, "scope": " ".join(sc), "code_challenge": ver if method == "plain" else O.s256(ver), "code_challenge_method": method, "state": "s"}
            rep = O.must(c, w.p.authorize, O.req(query=q, user=user), "authorization", query=q)
            code = dict(rep.params()).get("code") if rep else None
            if not c.check(code is not None, "a complete authorization request got no code", query=q, reply=rep):
                continue
            r = rng.random()
            t, presenter, pv, pu = now + 10, cl, ver, uri
            if r < 0.1:
                t = now + rng.choice([59, 60, 61, 4000])
            elif r < 0.2:
                presenter = rng.choice(cls)
            elif r < 0.3:
                pv = rng.choice(verifier_attacks(rng, ver, method))
            elif r < 0.35:
                pu = rng.choice(cl.uris)
            elif r < 0.4:
                cl.scopes = []
            w.redeem(presenter, {"code": code, "redirect_uri": pu, "code_verifier": pv}, "full-flow", now=t, zone=rng.choice(clock.ZONES))
            cl.scopes = list(SUPPORTED)
            if rng.random() < 0.3:
                now += rng.randrange(1, 1000)
            # the code is now used up
            if rng.random() < 0.5:
                w.redeem(cl, {"code": code, "redirect_uri": uri, "code_verifier": ver}, "again", now=t)
    c.require("redeemed", 400)
    c.require("refused", 1000)
    for k in ("other client", "other redirect_uri", "redirect_uri not registered", "verifier", "user gone", "expired", "no such code"):
        if k != "redirect_uri not registered":
            c.require("only:" + k, 5)
    c.require("with-refresh", 50)
    c.require("without-refresh", 50)
