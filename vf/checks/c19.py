"""C19: clients only get the grants they are registered for."""
import itertools

from vf import gen
from vf import oauth as O

SCALE = 3
DEEP = 8
RULE = ("The full matrix of provider grant sets (8, in varying order), client registrations (8), client authentication methods (3) and grant types, with an otherwise valid request for each grant, plus near-miss "
        "and repeated grant type texts and histories in which registrations change. Success is allowed only where the provider offers the grant and the client is registered for it (and has a secret, for client "
        "credentials); refusals must not issue anything; client-credentials tokens must be the client's own and come without a refresh token. A case is one (provider grants, registration, method, grant type text).")

URI = "https://c.example/cb"
G = {"authorization_code": O.AuthorizationCodeGrant, "refresh_token": O.RefreshTokenGrant, "client_credentials": O.ClientCredentialsGrant}
METHODS = ["client_secret_basic", "client_secret_post", "none"]
SC = ["a", "b", "openid", "profile", "offline_access"]


class World:
    def __init__(self, c, name, offered):
        self.c, self.offered = c, list(offered)
        self.s = O.Store(name)
        self.user = self.s.add(O.User("u"))
        self.p = O.provider(self.s, SC, grants=[G[g] for g in offered])
        self.k = 0

    def send(self, cl, grant_type, shape=None, kind="matrix", extra=None, pairs=None, query=None, judged=True):
        """`shape`: which grant's parameters accompany the request."""
        c, s = self.c, self.s
        self.k += 1
        shape = shape or grant_type
        if self.k % 2 and cl.id not in s.users:
            s.add(O.User(cl.id))     # a user who happens to have the client's name
        form = {"grant_type": grant_type} if grant_type is not None else {}
        if shape == "refresh_token":
            form["refresh_token"] = s.put_refresh("rt%d" % self.k, cl, self.user, SC)
        elif shape == "authorization_code":
            form.update(code=s.put_code("code%d" % self.k, cl, self.user, URI, SC, "v" * 43), redirect_uri=URI, code_verifier="v" * 43)
        elif shape == "everything":
            form.update(code=s.put_code("code%d" % self.k, cl, self.user, URI, SC, "v" * 43), redirect_uri=URI, code_verifier="v" * 43,
                        refresh_token=s.put_refresh("rt%d" % self.k, cl, self.user, SC))
        if "scope" not in (extra or {}) and self.k % 3:
            form["scope"] = " ".join(SC[self.k % 5:] + SC[:self.k % 2])
        form.update(extra or {})
        f, h = O.client_auth(cl, form)
        named = cl.method == "client_secret_basic" and self.k % 7 == 0
        if named:
            # the header says who asks; the body names a client that may do everything
            f["client_id"] = "twin"
            if "twin" not in s.clients:
                s.add(client("client_secret_basic", list(G), "twin"))
            c.count("other-client-named")
        items = list(f.items()) + list(pairs or [])
        allowed = grant_type in self.offered and grant_type in cl.grants and not (grant_type == "client_credentials" and cl.method == "none")
        mark = s.mark()
        detail = dict(offered=self.offered, registered=cl.grants, method=cl.method, grant_type=grant_type, form=items, query=query, allowed=allowed)
        rep = O.must(c, self.p.token, O.req(form=items, headers=h, query=query), "token request", **detail)
        c.case(kind, (tuple(self.offered), tuple(cl.grants), cl.method, grant_type, shape, str(pairs), str(query)), sample=(self.offered, cl.grants, cl.method, grant_type))
        if rep is None:
            return
        issued = s.since(mark, O.ISSUING)
        detail.update(reply=rep, issued=issued)
        if judged and not allowed:
            c.count("refused")
            c.check(not rep.is_token and rep.status in (400, 401), "a grant the provider or client is not set up for was served", **detail)
            c.check(not issued, "something was issued through a grant the provider or client is not set up for", **detail)
        elif named and not rep.is_token and not issued:
            pass                            # refusing contradictory client IDs is as good an answer
        elif judged:
            c.count("served:" + grant_type)
            c.check(rep.is_token, "a grant the provider offers and the client is registered for was refused", **detail)
        if not judged:
            # ambiguous request: whatever was served must be something allowed
            ok = [g for g in self.offered if g in cl.grants and not (g == "client_credentials" and cl.method == "none")]
            c.check(not rep.is_token or ok, "a grant the provider or client is not set up for was served", **detail)
        if rep.is_token:
            owner = [e.args[1] for e in issued if e.name == "create_access_token"]
            if "client_credentials" == grant_type and judged:
                c.count("own-behalf")
                c.check(owner == [("client", cl.id)] and issued[0].args[0] == ("client", cl.id), "a client-credentials token is not on the client's own behalf", **detail)
                c.check("refresh_token" not in rep.json and not any(e.name == "create_refresh_token" for e in issued), "client credentials gave a refresh token", **detail)
            elif judged:
                c.check(owner == [("user", "u")], "a user token is not for the user", **detail)
        s.codes.clear(); s.refresh.clear(); s.access.clear()
        del s.log[:]


def client(method, grants, id="c"):
    return O.Client(id, None if method == "none" else "sec", method, SC, [URI], grants)


def subsets(xs):
    return [list(t) for n in range(len(xs) + 1) for t in itertools.combinations(xs, n)]


def run(c):
    rng = c.sub_rng("main")
    names = list(G)
    texts = []
    for g in names:
        texts += gen.near_misses(g)
    texts = [t for t in dict.fromkeys(texts + ["implicit", "password", "urn:ietf:params:oauth:grant-type:device_code", "code", "token", "none", "authorization_code refresh_token", "0", "BaseGrant", "__init__"]) if t not in G]
    for order in itertools.permutations(names):
        for offered in subsets(order):
            if offered != sorted(offered, key=order.index) or (not c.thorough and list(order) != names and len(offered) < 2):
                continue
            w = World(c, "m", offered)
            for grants in subsets(names):
                for m in METHODS:
                    cl = w.s.add(client(m, grants))
                    for g in names:
                        w.send(cl, g)
                        w.send(cl, g, "everything")
                    w.send(cl, None, "everything")
                    for t in rng.sample(texts, min(len(texts), c.n(4, 30))):
                        w.send(cl, t, "everything", kind="near-miss")
    w = World(c, "t", names)
    for m in METHODS:
        cl = w.s.add(client(m, names))
        for t in texts:
            w.send(cl, t, "everything", kind="near-miss")
            cl.grants = names + [t]      # registered for a grant type the provider does not have
            w.send(cl, t, "everything", kind="near-miss-registered")
            cl.grants = names
    # registered only under a look-alike name
    for g in names:
        for t in [x for x in gen.near_misses(g) if x not in G]:
            for m in METHODS:
                cl = w.s.add(client(m, [t]))
                w.send(cl, g, kind="look-alike-registration")
    # repeated and split grant types: ambiguous, but never more than allowed
    for _ in range(c.n(500, 6000)):
        w = World(c, "r", rng.choice(subsets(names)))
        cl = w.s.add(client(rng.choice(METHODS), rng.choice(subsets(names))))
        a, b = rng.choice(names), rng.choice(names)
        r = rng.random()
        if r < 0.5:
            w.send(cl, a, "everything", kind="repeated", pairs=[("grant_type", b)], judged=False)
        else:
            w.send(cl, a, "everything", kind="split", query={"grant_type": b}, judged=False)
    # extra parameters do not turn one grant into another
    for _ in range(c.n(300, 3000)):
        w = World(c, "x", names)
        cl = w.s.add(client(rng.choice(METHODS), rng.choice(subsets(names))))
        w.send(cl, rng.choice(names), "everything", kind="extras", extra=rng.choice([{"response_type": "code"}, {"assertion": "x"}, {"username": "u", "password": "p"}, {"scope": "a"}]))
    for i, force in enumerate(O.forcings()):
        with O.forced(*force):
            w = World(c, "n", names if i % 2 else rng.choice(subsets(names)))
            for grants in subsets(names):
                cl = w.s.add(client(rng.choice(METHODS), grants))
                for g in names:
                    w.send(cl, g, rng.choice([None, "everything"]), kind="company")
    # registrations change over time, several clients of one provider
    for h in range(c.n(20, 200)):
        w = World(c, "h%d" % h, rng.choice([names, names[:2], names[1:], names[::2]]))
        cls = [w.s.add(client(rng.choice(METHODS), rng.choice(subsets(names)), "c%d" % i)) for i in range(3)]
        for _ in range(c.n(50, 120)):
            cl = rng.choice(cls)
            if rng.random() < 0.3:
                cl.grants = rng.choice(subsets(names))
                c.count("registration-changes")
            w.send(cl, rng.choice(names), rng.choice([None, "everything"]), kind="history")
    for g in names:
        c.require("served:" + g, 30)
    c.require("own-behalf", 30)
    c.require("refused", 1000)
