"""C23: ID Tokens are issued for openid only, with correct, verifiable claims."""
import json

from vf import clock, gen, keys, refjose as R
from vf import oauth as O
from vf.psi import JsonWebKeySet, jwk

SCALE = 3
DEEP = 3
RULE = ("Full authorization-code flows on OpenID Connect providers: every signing algorithm and key family, scope sets with and without openid and its look-alikes, nonces over all of Unicode or absent, several users and "
        "clients with generated user claims, several flows open at once, lifetimes, instants over 100 years and every host time zone. Each token response is checked by an independent JWS verifier and a claim-by-claim comparison with the "
        "request, the clock, the access token in the response and what the application supplied. A case is one (algorithm, scopes, nonce, user, client, instant, zone).")

ALGS = ["HS256", "HS384", "HS512", "RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "ES256", "ES384", "ES512"]
SUPPORTED = ["openid", "openid2", "xopenid", "OPENID", "OpenID", "open", "id", "openid:x", "openid-connect", "profile", "email", "a", "openid,profile", "https://openid.net/openid"]
URI = "https://c.example/cb"
RESERVED = {"iss", "aud", "exp", "iat", "nonce", "at_hash", "auth_time", "max_age", "nbf", "jti", "acr", "amr", "azp", "c_hash", "self", "sid"}


def info(rng, uid):
    d = {"sub": uid}
    for _ in range(rng.randrange(0, 6)):
        k = rng.choice(["name", "email", "email_verified", "address", "groups", "scope", "client_id", "roles", "acr", "amr", "sid", "picture", "updated_at", "phone_number", "zoneinfo", "locale", "id", "user", "token", "code", "kid", "alg", "typ", "_x", "access_token", "state", "x-" + gen.text(rng, 0, 5, gen.ASCII), "é"])
        v = gen.json_value(rng, 2)
        if v is not None and k not in RESERVED:
            d[k] = v
    return d


class World:
    def __init__(self, c, rng, name, alg, lifespan):
        self.c, self.rng, self.alg, self.lifespan = c, rng, alg, lifespan
        self.s = O.Store(name)
        self.rotate(alg)
        self.issuer = rng.choice(["https://op.example", "https://op.example/tenant/1", "http://localhost:8000", "https://op.example/", "https://OP.example:443/a//b/", "https://op.example/é?x=y&z#f", "urn:op", "https://op.example,https://other.example"])
        self.p = O.provider(self.s, SUPPORTED, issuer=self.issuer, oidc=True, id_token_lifespan=lifespan, keyset=JsonWebKeySet([self.jk]))
        self.users = [self.s.add(O.User(u)) for u in ("u1", "u2", "24400320")]
        ids = rng.sample(["cl0", "cl1", "cl2", "a,b", "a b", "Cliént", "0", "client.example/x", "[\"x\"]", " lead", "WEB", "Mixed-Case.App", "x" * 300, "cl0/"], 3)
        for i, m in enumerate(["client_secret_basic", "client_secret_post", "none"]):
            self.s.add(O.Client(ids[i], None if m == "none" else "sec", m, SUPPORTED, [URI], ["authorization_code"] + (["refresh_token"] if i else [])))
        self.info = {}
        self.s.userinfo = lambda user, scopes: dict(self.info[(user.id, tuple(sorted(scopes)))])

    def rotate(self, alg):
        """The application's current signing key."""
        self.alg = alg
        self.key = keys.key_for(alg, self.rng)
        self.kid = self.rng.choice(["k1", "kid-é", "0", "k2", "K1-Signing", " k ", "k" * 200, "https://op.example/keys#1", "k=+/%20"])
        self.jk = jwk(self.key, kid=self.kid)
        self.s.keyinfo = {"key": self.jk, "alg": alg}

    def authorize(self, cl, user, scopes, nonce, extra=None):
        q = {"response_type": "code", "client_id": cl.id, "redirect_uri": URI, "scope": " ".join(scopes), "code_challenge": "v" * 43, "code_challenge_method": "plain", "state": "st"}
        if nonce is not None:
            q["nonce"] = nonce
        self.info.setdefault((user.id, tuple(sorted(scopes))), info(self.rng, user.id))
        rep = O.must(self.c, self.p.authorize, O.req(query=q, user=user, style=self.rng.choice(["qp", "pct", "all"])), "authorization", query=q)
        code = dict(rep.params()).get("code") if rep else None
        self.c.check(code is not None, "a complete authorization request got no code", query=q, reply=rep)
        return dict(cl=cl, user=user, scopes=list(scopes), nonce=nonce or None, code=code)

    def redeem(self, fl, now, nsec, zone, extra=None):
        c, s = self.c, self.s
        cl = fl["cl"]
        form = {"grant_type": "authorization_code", "code": fl["code"], "redirect_uri": URI, "code_verifier": "v" * 43}
        form.update(extra or {})
        mark = s.mark()
        detail = dict(alg=self.alg, flow={k: v for k, v in fl.items()}, now=now, nsec=nsec, zone=zone, lifespan=self.lifespan)
        r = O.token_req(cl, form)
        with clock.at(now, nsec, zone):
            rep = O.must(c, self.p.token, r, "redemption", **detail)
        c.case(self.alg, (sorted(fl["scopes"]), fl["nonce"], fl["user"].id, cl.id, now, nsec, zone), sample=detail["flow"])
        if rep is None or not c.check(rep.is_token, "redeeming a valid code was refused", reply=rep, **detail):
            return
        j = rep.json
        detail["reply"] = rep
        want = "openid" in fl["scopes"]
        if not want:
            c.count("without-id-token")
            c.check("id_token" not in j, "an ID Token was issued although openid was not granted", **detail)
            return
        c.count("with-id-token")
        if not c.check(isinstance(j.get("id_token"), str), "no ID Token although openid was granted", **detail):
            return
        got = R.verify_token(j["id_token"].encode(), self.key)
        if not c.check(got is not None, "the ID Token is not a JWS signed with the provider's key", **detail):
            return
        header, payload = got
        claims = json.loads(payload.decode("utf-8"))
        detail.update(header=header, claims=claims)
        c.check(header.get("alg") == self.alg, "the ID Token is not signed with the provider's algorithm", **detail)
        c.check(header.get("kid", self.kid) == self.kid, "the ID Token names another key", **detail)
        c.check(claims.get("iss") == self.issuer, "iss is not the provider", **detail)
        c.check(claims.get("aud") in (cl.id, [cl.id]), "aud is not the client", **detail)
        iat = claims.get("iat")
        c.check(type(iat) is int and iat in (now, now + (1 if nsec else 0)), "iat is not the current UTC time", **detail)
        c.check(type(claims.get("exp")) is int and type(iat) is int and claims["exp"] - iat == self.lifespan, "exp is not the current UTC time plus the configured lifetime", **detail)
        c.check(claims.get("at_hash") == R.half_hash(j["access_token"], self.alg), "at_hash is not that of the access token in the response", **detail)
        c.check(claims.get("nonce") == fl["nonce"] and ("nonce" in claims) == (fl["nonce"] is not None), "nonce is not that of the authorization request", **detail)
        c.count("nonces" if fl["nonce"] else "no-nonces")
        supplied = self.info[(fl["user"].id, tuple(sorted(fl["scopes"])))]
        mine = {k: v for k, v in claims.items() if k not in RESERVED}
        detail["supplied"] = supplied
        c.check(json.dumps(mine, sort_keys=True) == json.dumps({k: v for k, v in supplied.items() if v is not None}, sort_keys=True), "the user claims are not those the application supplied", **detail)
        asked = s.since(mark, {"get_userinfo"})
        c.check(all(e.args[0] == ("user", fl["user"].id) and sorted(e.args[1]) == sorted(fl["scopes"]) for e in asked), "user claims were requested for another user or other scopes", asked=asked, **detail)


def run(c):
    clock.require()
    rng = c.sub_rng("main")
    rounds = c.n(5, 30)
    n = 0
    for rd in range(rounds):
        for alg in ALGS:
            w = World(c, rng, "%s%d" % (alg, rd), alg, rng.choice([36000, 1, 60, 300, 86400 * 30]))
            open_flows = []
            for i in range(c.n(22 if alg[:2] != "RS" and alg[:2] != "PS" else 14, 60)):
                cl, user = rng.choice(list(w.s.clients.values())), rng.choice(w.users)
                r = rng.random()
                scopes = rng.sample([x for x in SUPPORTED if x != "openid"], rng.choice([1, 2, 2, 3, 4, 7, 13]))
                if r < 0.65:
                    scopes.insert(rng.randrange(len(scopes) + 1), "openid")
                elif r < 0.75:
                    scopes = ["openid"]
                elif r < 0.85:
                    scopes = [rng.choice([x for x in SUPPORTED if "open" in x.lower() and x != "openid"])]
                nonce = rng.choice([None, "n-0S6_WzA2Mj", "", gen.uni_text(rng, 1, 40), gen.text(rng, 1, 30), "%41+ &=", "n" * 3000, "0", "null"])
                open_flows.append(w.authorize(cl, user, scopes, nonce))
                if rng.random() < 0.6:   # the application's view of users changes over time
                    k = (user.id, tuple(sorted(scopes)))
                    w.info[k] = info(rng, user.id)
                if rng.random() < 0.1:
                    w.rotate(rng.choice(ALGS))
                    c.count("key-rotations")
                while open_flows and (rng.random() < 0.6 or len(open_flows) > 5):
                    fl = open_flows.pop(rng.randrange(len(open_flows)))
                    now = rng.choice([rng.randrange(86400 * 400, 2 ** 32), 1710054000 + rng.randrange(-7300, 7300), 1729994400 + rng.randrange(-7300, 7300), 2 ** 31, 2 ** 31 - 1])
                    w.redeem(fl, now, rng.choice([0, 0, 500000000, 900000000]), clock.ZONES[n % len(clock.ZONES)], rng.choice([None, None, None, {"nonce": "evil"}, {"scope": "openid"}, {"state": "x"}]))
                    n += 1
    c.require("with-id-token", 120)
    c.require("without-id-token", 40)
    c.require("nonces", 50)
    c.require("no-nonces", 20)
