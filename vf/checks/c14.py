"""C14: authorization codes are issued only for complete, permitted requests, and record exactly the request."""
import itertools

from vf import authz as A
from vf import gen
from vf import oauth as O
from vf.checks.c13 import URIS

SCALE = 3
DEEP = 4
RULE = ("Authorization requests over the matrix of login state, response type, client registration, scope set, PKCE challenge length (0..140, every length around the bounds) and method text, with "
        "generated values and any split over URL and body, in histories that change registrations, on providers with and without OpenID Connect. Each outcome is compared with an executable "
        "specification of the conditions; each stored record is compared field by field with the request, and the delivered code with the stored one. A case is one (request, registration).")

SUPPORTED = ["openid", "profile", "email", "offline_access", "address", "a", "ab", "abc", "A", "read:x", "https://x/scope", "a.b-c_d"]

MISS_CODE = [x for x in gen.near_misses("code")]
MISS_METHOD = [x for m in ("plain", "S256") for x in gen.near_misses(m)]


class World:
    def __init__(self, c, rng, name, oidc, grants=O.ALL_GRANTS, supported=SUPPORTED):
        self.c, self.rng, self.oidc, self.supported = c, rng, oidc, supported
        self.s = O.Store(name)
        self.users = [self.s.add(O.User(u)) for u in O.UIDS + ["é"]]
        self.has_code = O.AuthorizationCodeGrant in grants
        self.p = O.provider(self.s, supported, grants=grants, oidc=oidc)
        self.seen = set()

    def send(self, query, user, form=None, kind="", style="qp", judged=True):
        c, s = self.c, self.s
        p = A.merged(query, form)
        fl = A.faults(p, user, s, self.supported)
        if not self.has_code and not fl:
            fl = [("no-code-grant", None)]
        client = s.clients.get(p.get("client_id", ""))
        mark = s.mark()
        detail = dict(query=query, form=form, user=user, client=client and dict(vars(client)), faults=fl, oidc=self.oidc)
        rep = O.must(c, self.p.authorize, O.req(query=query, form=form, user=user, style=style), "authorization request", **detail)
        c.case(kind, (sorted(p.items()), user and user.id, [f[0] for f in fl], client and sorted(map(str, vars(client).items())), self.oidc), sample=(p, user, [f[0] for f in fl]))
        if rep is None:
            return None
        saved = s.since(mark, {"save_authorization_code"})
        other = s.since(mark, O.EFFECTS - {"save_authorization_code"})
        params = rep.params() if rep.location else []
        codes = [v for k, v in params if k == "code"]
        if client is not None and p.get("redirect_uri") in client.uris:
            t = A.target(rep.location, p["redirect_uri"])
            codes = [v for k, v in t or [] if k == "code"]
        detail.update(reply=rep, saved=saved)
        c.check(not other, "an authorization request issued or changed something other than a code", effects=other, **detail)
        if fl and judged:
            c.count("refused:" + fl[0][0])
            c.count("refused")
            c.check(not saved, "a code was stored for a request that must be refused", **detail)
            c.check(not codes, "a code was delivered for a request that must be refused", **detail)
        elif judged:
            c.count("granted")
            c.check(len(saved) == 1, "a request meeting all conditions did not get exactly one code stored", **detail)
            c.check(len(codes) == 1, "a request meeting all conditions did not get a code delivered", **detail)
        if codes:
            c.check(len(saved) == 1 and codes == [saved[0].args[0]], "the delivered code is not the one stored", **detail)
        for e in saved:
            code, data, cl, us = e.args
            c.count("records-compared")
            c.check(isinstance(code, str) and code != "", "stored code is not a text", **detail)
            c.check(code not in self.seen, "the same code was stored twice", **detail)
            self.seen.add(code)
            c.check(cl == ("client", p.get("client_id")), "code stored for another client", **detail)
            c.check(user is not None and us == ("user", user.id), "code stored for another user", **detail)
            for f in ("redirect_uri", "code_challenge", "code_challenge_method"):
                c.check(data.get(f) == p.get(f), "stored %s is not that of the request" % f, **detail)
            c.check(isinstance(data.get("scopes"), (list, tuple)) and set(data["scopes"]) == set(p.get("scope", "").split()), "stored scopes are not those of the request", **detail)
            if self.oidc:
                c.check(data.get("nonce") == p.get("nonce"), "stored nonce is not that of the request", **detail)
        if self.rng.random() < 0.5:
            self.consent(O.req(query=query, form=form, user=user, style=style), p, client, {f[0] for f in fl}, detail)
        s.codes.clear()
        del s.log[:]
        return rep

    def consent(self, request, p, client, fl, detail):
        """What the user is asked to consent to is prepared for the same client, URI and response type as a code would be issued for."""
        c, s = self.c, self.s
        mark = s.mark()
        try:
            got = O.run(self.p.authorize.get_consent_data(request))
        except Exception as exc:
            c.fail("preparing consent raised %r" % exc, **detail)
            return
        c.check(not s.since(mark, O.EFFECTS), "preparing consent issued or changed something", effects=s.since(mark, O.EFFECTS), **detail)
        barred = client is None or p.get("redirect_uri") not in client.uris or p.get("response_type") not in client.responses or not p.get("scope")
        if barred:
            c.count("consent-refused")
            c.check(not isinstance(got, dict), "consent data was prepared for a client, redirect URI or response type that is not permitted, or for no scope", got=got, **detail)
        elif not fl - {"user", "challenge", "method"}:
            c.count("consent-prepared")
            c.check(isinstance(got, dict) and getattr(got.get("client"), "id", None) == client.id, "consent data was not prepared for a permitted request", got=got, **detail)


def good(rng, w, client):
    v = O.verifier(rng)
    sc = rng.sample(client.scopes, rng.randint(1, len(client.scopes)))
    q = {"response_type": "code", "client_id": client.id, "redirect_uri": rng.choice(client.uris), "scope": " ".join(sc),
         "code_challenge": v if rng.random() < 0.5 else O.s256(v), "code_challenge_method": rng.choice(["plain", "S256"])}
    if rng.random() < 0.7:
        q["state"] = gen.text(rng, 1, 20) or "s"
    if rng.random() < 0.6:
        q["nonce"] = gen.uni_text(rng, 1, 30) if rng.random() < 0.85 else gen.uni_text(rng, 100, 2500)
    return q


def breakers(rng, w, client):
    other = [s for s in w.supported if s not in client.scopes]
    near_sc = [x for s in client.scopes for x in (s[:-1], s + "x", s.upper(), s.swapcase(), s + s, s[1:], s + ",", "*") if x and x not in w.supported and " " not in x]
    return {
        "no-user": lambda q, k: k.__setitem__("user", None),
        "rt": lambda q, k: q.__setitem__("response_type", rng.choice(["token", "Code", "CODE", "code ", " code", "code token", "id_token", "cod", "codes", "none", "authorization_code", "", "null", "code\n"] + MISS_CODE)),
        "rt-missing": lambda q, k: q.pop("response_type"),
        "ch-missing": lambda q, k: q.pop("code_challenge"),
        "ch-len": lambda q, k: q.__setitem__("code_challenge", O.verifier(rng, rng.choice([1, 20, 41, 42, 129, 130, 256, 1000]))),
        "m-missing": lambda q, k: q.pop("code_challenge_method"),
        "m-bad": lambda q, k: q.__setitem__("code_challenge_method", rng.choice(["s256", "PLAIN", "Plain", "S512", "none", "S256 ", " plain", "S-256", "sha256", "S25", "S2566", "plai", "0", "None", "plain,S256"] + MISS_METHOD)),
        "sc-missing": lambda q, k: q.pop("scope"),
        "sc-unsupported": lambda q, k: q.__setitem__("scope", " ".join(rng.sample(q["scope"].split() + [rng.choice(near_sc)], len(q["scope"].split()) + 1))),
        "sc-forbidden": lambda q, k: q.__setitem__("scope", " ".join(rng.sample(q["scope"].split() + [rng.choice(other)], len(q["scope"].split()) + 1))) if other else q.pop("scope"),
        "uri": lambda q, k: q.__setitem__("redirect_uri", q["redirect_uri"] + "x"),
        "uri-missing": lambda q, k: q.pop("redirect_uri"),
        "client": lambda q, k: q.__setitem__("client_id", rng.choice([x for x in gen.near_misses(q["client_id"]) if x and x not in w.s.clients])),
        "client-missing": lambda q, k: q.pop("client_id"),
        "client-rt": lambda q, k: q.__setitem__("client_id", "norsp"),
    }


def run(c):
    rng = c.sub_rng("main")
    worlds = []
    for i, (oidc, grants) in enumerate([(True, O.ALL_GRANTS), (False, O.ALL_GRANTS), (True, (O.AuthorizationCodeGrant,)), (False, (O.ClientCredentialsGrant, O.RefreshTokenGrant))]):
        w = World(c, rng, "w%d" % i, oidc, grants)
        for j in range(8):
            w.s.add(O.Client(O.CIDS[j], "x", rng.choice(["client_secret_basic", "client_secret_post", "none"]), rng.sample(SUPPORTED, rng.choice([1, 2, 3, 4, 5, 6, 9, 12])), rng.sample(URIS, 3),
                             ["authorization_code"], rng.choice([("code",), ("code", "token"), ("id_token", "code")])))
        w.s.add(O.Client("norsp", "x", "none", SUPPORTED, URIS, ["authorization_code"], ()))
        w.s.add(O.Client("tokrsp", "x", "none", SUPPORTED, URIS, ["authorization_code"], ("token", "Code", "code ")))
        worlds.append(w)
        plain = [x for x in w.s.clients.values() if x.id[0] == "c"]
        # challenge lengths and methods
        cl = plain[0]
        for n in range(0, 141):
            for m in ("plain", "S256"):
                q = good(rng, w, cl)
                q.update(code_challenge=O.verifier(rng, n), code_challenge_method=m)
                w.send(q, rng.choice(w.users), kind="lengths")
                if n:
                    text = O.verifier(rng, n)
                    k = rng.choice([0, n // 2, n - 1])
                    q = good(rng, w, cl)
                    q.update(code_challenge=rng.choice([text[:k] + "é", "é" + text[:k], ""]) + rng.choice("é中\U0001f600") * (n - 1 - k), code_challenge_method=m)
                    w.send(q, rng.choice(w.users), kind="lengths-text")
        # challenges of every kind of character are stored as they are
        base = O.verifier(rng, 60)
        for ch in ["=", "==", " ", "+", "/", "%", "%3D", "&", "\n", "\0", "é", "中", "\U0001f600", "A", "-", "_", ".", "~", "'", '"', "\\", ",", ";", "#", "?"]:
            for v in (base + ch, ch + base, base[:30] + ch + base[30:], ch * 43, ch * 64):
                for m in ("plain", "S256"):
                    if 43 <= len(v) <= 128:
                        q = good(rng, w, cl)
                        q.update(code_challenge=v, code_challenge_method=m)
                        w.send(q, rng.choice(w.users), kind="challenge-text", style=rng.choice(["qp", "pct", "raw"]))
        # texts a sloppy comparison takes for the right ones, in the request and in the registration
        for f, texts in (("response_type", MISS_CODE), ("code_challenge_method", MISS_METHOD)):
            for t in texts:
                q = good(rng, w, cl)
                q[f] = t
                w.send(q, rng.choice(w.users), kind="near:" + f)
        for t in MISS_CODE:
            w.s.add(O.Client("near", "x", "none", SUPPORTED, URIS, ["authorization_code"], (t,)))
            q = good(rng, w, cl)
            q.update(client_id="near", redirect_uri=URIS[0], scope="a")
            w.send(q, rng.choice(w.users), kind="near:registered")
        del w.s.clients["near"]
        # every fault set of size 0..2
        for combo in itertools.chain([()], itertools.combinations(sorted(breakers(rng, w, cl)), 1), itertools.combinations(sorted(breakers(rng, w, cl)), 2)):
            for _ in range(c.n(2, 12) if len(combo) > 1 else c.n(6, 60)):
                cl = rng.choice(plain)
                q, k = good(rng, w, cl), {"user": rng.choice(w.users)}
                b = breakers(rng, w, cl)
                for name in combo:
                    try:
                        b[name](q, k)
                    except KeyError:
                        pass
                if "client-rt" in combo:
                    q["scope"] = "a" if "scope" in q else ""
                form = None
                if rng.random() < 0.3:
                    form = {x: q.pop(x) for x in list(q) if rng.random() < 0.5}
                w.send(q, k["user"], form=form, kind="faults", style=rng.choice(["qp", "pct", "low"]))
        # each fault in the company of each parameter or header that means nothing
        if i < 2:
            for force in O.forcings():
                with O.forced(*force):
                    for name in sorted(breakers(rng, w, cl)) + [None]:
                        cl = rng.choice(plain)
                        q, k = good(rng, w, cl), {"user": rng.choice(w.users)}
                        if name:
                            breakers(rng, w, cl)[name](q, k)
                        if name == "client-rt":
                            q["scope"] = "a"
                        w.send(q, k["user"], kind="company")
        q = good(rng, w, plain[1])
        q.update(client_id="tokrsp", redirect_uri=URIS[0], scope="a")
        w.send(q, w.users[0], kind="client-response-types")
        # well-formed requests with hostile values
        for _ in range(c.n(400, 8000)):
            cl = rng.choice(plain)
            w.send(good(rng, w, cl), rng.choice(w.users), kind="good", style=rng.choice(["qp", "pct", "all", "low", "raw"]))
    # registrations change
    for h in range(c.n(4, 60)):
        w = World(c, rng, "h%d" % h, bool(h % 2))
        for j in range(3):
            w.s.add(O.Client(O.CIDS[j], "x", "none", rng.sample(SUPPORTED, 4), rng.sample(URIS, 2), ["authorization_code"]))
        for _ in range(c.n(250, 500)):
            cl = rng.choice(list(w.s.clients.values()))
            q = good(rng, w, rng.choice([cl, cl, cl, rng.choice(list(w.s.clients.values()))]))
            r = rng.random()
            if r < 0.1:
                cl.scopes = rng.sample(SUPPORTED, rng.choice([1, 2, 3, 4, 5, 6, 9, 12]))
            elif r < 0.15:
                cl.uris = rng.sample(URIS, 2)
            elif r < 0.2:
                cl.responses = [] if cl.responses else ["code"]
            if rng.random() < 0.2:
                q["scope"] = " ".join(rng.sample(SUPPORTED, rng.randint(1, 5)))
            w.send(q, rng.choice(w.users + [None]), kind="history")
            c.count("history-steps")
    c.require("granted", 1500)
    c.require("refused", 1500)
    c.require("records-compared", 1500)
    c.require("consent-refused", 300)
    c.require("consent-prepared", 300)
