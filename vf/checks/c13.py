"""C13: users are only ever redirected to a registered URI of the requesting client, or to the error page."""
import itertools

from vf import authz as A
from vf import gen
from vf import oauth as O

SCALE = 3
DEEP = 5
RULE = ("Authorization and consent requests with registered, near-miss (case, slash, path, query, port, userinfo, host suffix, encoding, whitespace, look-alike), other-client and removed "
        "redirect URIs, each combined with every set of other faults (no user, bad response type, scope, PKCE, unknown client), in histories that change registrations. Every redirect is "
        "checked to go to a URI registered at that moment for the requesting client, with only query parameters added, or to the error page, and always to the error page when the client "
        "or URI does not check out, with no code stored. A case is one (endpoint, client, URI, fault set).")

SUPPORTED = ["openid", "profile", "email"]
CH = "c" * 43
URIS = [
    "https://client.example/cb", "https://client.example/cb?x=1", "https://client.example/cb?x=1&y=a%20b", "http://localhost:8080/cb", "http://127.0.0.1/cb", "http://localhost/cb", "http://127.0.0.1:5000/cb", "https://*.client.example/cb",
    "http://[::1]:9000/cb", "com.example.app:/oauth2redirect", "com.example.app://cb", "https://client.example/", "https://client.example",
    "https://client.example/a/../b", "https://client.example/%7Euser/cb", "https://client.example/~user/cb", "https://user@client.example/cb", "https://client.example:443/cb",
    "https://client.example/cb;p=1", "https://client.example/cb,(1)'!*", "https://CLIENT.example/CB", "https://client.example/cb?", "https://client.example/cb/",
    "https://xn--bcher-kva.example/cb", "https://client.example/cb?next=https://evil.example/", "https://client.example/cb?a=b&", "urn:ietf:wg:oauth:2.0:oob",
    "https://client.example/cb?response_type=code&client_id=x",
]
ERROR_URLS = ["https://op.example/error", "https://op.example/error?page=oauth", "/error", "https://op.example:8443/a/b/error"]
HOSTILE = ["https://evil.example/", "javascript:alert(1)", "data:text/html,x", "//evil.example", "https:evil.example", "\\\\evil.example", "https://client.example.evil.example/cb",
           "https://client.example@evil.example/cb", "https://evil.example/https://client.example/cb", "https://client.example/cb\r\nLocation: https://evil.example",
           "https://client.example/cb%0d%0aX: y", "https://evil.example?u=https://client.example/cb", "", " ", "None", "null", "*", "https://op.example/error", "code", "https://client.example/cb#f"]


def near_uris(u):
    out = gen.near_misses(u)
    out += [u + "/evil", u + "/..", u + "#", u + "#f", u + "?", u + "?evil=1", u + "&evil=1", u + "/../evil", u + ".evil.example", u + "@evil.example", u + "\\@evil.example", u + "%2f", u + "%00",
            u.replace("client", "evil"), u.replace("://", "://evil@"), u.replace("://", ":///"), u.replace(".example", ".example:444"), u.replace("/cb", "/cb/cb"), u.replace("/cb", "//cb"),
            u.replace("https", "HTTPS"), u.replace("example", "EXAMPLE"), u.replace("%20", "+"), u.replace("%20", " "), u.replace("%7E", "~"), u.replace("~", "%7E"), u.replace("%7E", "%7e"),
            u.split("?")[0], u.rsplit("/", 1)[0], u.rsplit("/", 1)[0] + "/", u.split("://")[-1], "http://evil.example/?" + u, u.replace("localhost", "127.0.0.1"), u.replace(":8080", ":8081"),
            u.replace(":8080", ""), u.replace(":443", ""), u.replace("https://client.example", "https://client.example:443"), "x" + u, u.replace("127.0.0.1", "127.0.0.2"),
            u.replace("cb", "c%62"), u.replace("/a/../b", "/b")] + A.uri_variants(u)
    return [x for x in dict.fromkeys(out) if x != u]


BAD = {
    "user": lambda q, kw: kw.__setitem__("user", None),
    "response_type": lambda q, kw: q.__setitem__("response_type", "token"),
    "no_response_type": lambda q, kw: q.pop("response_type", None),
    "challenge": lambda q, kw: q.__setitem__("code_challenge", "short"),
    "no_challenge": lambda q, kw: q.pop("code_challenge", None),
    "method": lambda q, kw: q.__setitem__("code_challenge_method", "S512"),
    "no_scope": lambda q, kw: q.pop("scope", None),
    "scope": lambda q, kw: q.__setitem__("scope", "openid admin"),
    "client_scope": lambda q, kw: q.__setitem__("scope", "email"),
    "unknown_client": lambda q, kw: q.__setitem__("client_id", "ghost"),
    "no_client": lambda q, kw: q.pop("client_id", None),
    "client_rt": lambda q, kw: q.__setitem__("client_id", "norsp"),
    "no_state": lambda q, kw: q.pop("state", None),
    "no_uri": lambda q, kw: q.pop("redirect_uri", None),
}


class World:
    def __init__(self, c, name, error_url, oidc=False):
        self.c = c
        self.s = O.Store(name)
        self.user = self.s.add(O.User("u1"))
        self.err = error_url
        self.p = O.provider(self.s, SUPPORTED, error_url=error_url, oidc=oidc)

    def client(self, id, uris, responses=("code",)):
        return self.s.add(O.Client(id, "x", "client_secret_basic", ["openid", "profile"], uris, ["authorization_code"], responses))

    def send(self, query, user, consent=False, form=None, kind="", style="qp", ids=None):
        c, s = self.c, self.s
        p = A.merged(query, form)
        mark = s.mark()
        r = O.req(query=list(query.items()) if isinstance(query, dict) else query, form=form, user=user, style=style)
        detail = dict(consent=consent, query=query, form=form, user=user, registered={k: v.uris for k, v in s.clients.items()}, error_url=self.err)
        O.TAG.set(None)
        try:
            raw = O.run(self.p.authorize.get_consent_data(r) if consent else self.p.authorize(r))
        except Exception as exc:
            c.fail("the authorization endpoint raised %r" % exc, **detail)
            return
        c.case(("consent" if consent else "authorize") + ":" + kind, (p, user is None, style), sample=(p, user))
        saved = s.since(mark, {"save_authorization_code"})
        cands = ids if ids is not None else [p.get("client_id")]
        registered = [u for i in cands if i in s.clients for u in s.clients[i].uris]
        wanted = p.get("redirect_uri")
        good = wanted in registered and ids is None
        detail["saved"] = saved
        if isinstance(raw, dict):
            c.count("consent-data")
            c.check(consent and (good or ids is not None), "consent data was prepared for an unverified client or redirect URI", **detail)
            return
        rep = O.Reply(raw)
        detail["reply"] = rep
        if not c.check(rep.location is not None and 300 <= rep.status < 400, "the response is not a redirect", **detail):
            return
        kindof, uri, params = A.where(rep.location, registered, self.err)
        c.count("to:" + kindof)
        c.check(kindof != "elsewhere", "the user is redirected to a place that is neither registered for the client nor the error page", **detail)
        if kindof == "error":
            d = dict(params)
            c.check(d.get("error") in O.OAUTH_ERRORS and "code" not in d, "the error page is not given a registered error code", **detail)
        if kindof == "uri":
            if ids is None:
                c.check(uri == wanted or A.target(rep.location, wanted) is not None, "the user is redirected to a URI other than the requested one", **detail)
                c.check(good, "redirected to the client although the client or redirect URI does not check out", **detail)
            names = dict(params)
            if "code" in names:
                c.count("codes-delivered")
        if ids is None and not good:
            c.count("must-be-error-page")
            c.check(kindof == "error" or (kindof == "uri" and wanted in registered), "client or redirect URI does not check out but the error page is not used", **detail)
            c.check(not saved, "a code was issued although the client or redirect URI does not check out", **detail)
            c.check(kindof != "error" or "code" not in dict(params), "the error page received a code", **detail)
        if consent:
            c.check(not saved, "preparing consent issued a code", **detail)
        if good:
            c.count("verified-uri")
        s.codes.clear()
        del s.log[:]


def base_query(cid, uri):
    return {"response_type": "code", "client_id": cid, "redirect_uri": uri, "scope": "openid profile", "state": "st", "code_challenge": CH, "code_challenge_method": "plain"}


def run(c):
    rng = c.sub_rng("main")
    combos = [()] + [(k,) for k in BAD] + list(itertools.combinations(BAD, 2))
    for ei, err in enumerate(ERROR_URLS):
        w = World(c, "w%d" % ei, err, oidc=bool(ei % 2))
        w.client("all", URIS)
        w.client("other", ["https://other.example/cb"])
        w.client("norsp", URIS[:6], responses=())
        w.client("none", [])
        for i, u in enumerate(URIS):
            w.client("one%d" % i, [u])
        # every fault set against registered and hostile URIs
        for combo in combos if ei == 0 or c.thorough else combos[:len(BAD) + 1]:
            for u in [URIS[0], URIS[2], "https://evil.example/cb", "https://other.example/cb"] + ([rng.choice(URIS), rng.choice(HOSTILE)]):
                for consent in (False, True):
                    q, kw = base_query("all", u), {"user": w.user}
                    for k in combo:
                        BAD[k](q, kw)
                    w.send(q, kw["user"], consent, kind="faults")
        # near misses
        for i, u in enumerate(URIS):
            near = near_uris(u) + HOSTILE + URIS
            if not c.thorough and ei != i % 2:   # every variant once, a sample in the other worlds
                near = rng.sample(near, 30)
            for x in [u] + near:
                for cid in ("one%d" % i, "other", "none"):
                    q, kw = base_query(cid, x), {"user": w.user}
                    for k in rng.choice(combos[:len(BAD) + 1]) if rng.random() < 0.5 else ():
                        if k not in ("unknown_client", "no_client", "client_rt"):
                            BAD[k](q, kw)
                    w.send(q, kw["user"], rng.random() < 0.3, kind="near-uri", style=rng.choice(["qp", "pct", "all", "low", "raw"]))
        # client near misses
        for cid in gen.near_misses("all"):
            w.send(base_query(cid, URIS[0]), w.user, rng.random() < 0.3, kind="near-client")
        # parameters split over URL and body, and repeated parameters
        for _ in range(c.n(150, 3000)):
            q = base_query(rng.choice(["all", "other", "ghost"]), rng.choice(URIS + HOSTILE))
            form = {}
            for k in list(q):
                r = rng.random()
                if r < 0.3:
                    form[k] = q.pop(k)
                elif r < 0.4:
                    form[k] = rng.choice(["https://evil.example/", "all", "other", q[k]])
            w.send(q, rng.choice([w.user, None]), rng.random() < 0.3, form=form or None, kind="split")
        for _ in range(c.n(150, 3000)):
            ids = rng.sample(["all", "other", "none", "ghost"], 2)
            pairs = [(k, v) for k, v in base_query(ids[0], rng.choice(URIS)).items()]
            pairs += [("client_id", ids[1]), ("redirect_uri", rng.choice(["https://evil.example/", "https://other.example/cb", rng.choice(URIS)]))]
            if rng.random() < 0.5:
                pairs.append(("response_type", rng.choice(["token", "code"])))
            rng.shuffle(pairs)
            w.send(pairs, rng.choice([w.user, None]), rng.random() < 0.3, kind="repeated", ids=ids)
    # registrations change over time
    for h in range(c.n(6, 80)):
        w = World(c, "h%d" % h, rng.choice(ERROR_URLS), oidc=rng.random() < 0.5)
        for cid in ("c0", "c1", "c2"):
            w.client(cid, rng.sample(URIS, 3))
        for _ in range(c.n(200, 500)):
            r = rng.random()
            cid = rng.choice(["c0", "c1", "c2", "c3"])
            if r < 0.1 and cid in w.s.clients:
                w.s.clients[cid].uris = rng.sample(URIS, rng.randrange(0, 4))
                c.count("registration-changes")
            elif r < 0.13:
                w.s.clients.pop(cid, None)
            elif r < 0.2:
                w.client(cid, rng.sample(URIS, 2))
            q, kw = base_query(cid, rng.choice(URIS)), {"user": w.user}
            if rng.random() < 0.4:
                BAD[rng.choice(sorted(set(BAD) - {"client_rt"}))](q, kw)
            w.send(q, kw["user"], rng.random() < 0.3, kind="history")
    c.require("must-be-error-page", 1000)
    c.require("verified-uri", 500)
    c.require("to:uri", 500)
    c.require("to:error", 500)
    c.require("codes-delivered", 100)
