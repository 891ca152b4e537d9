"""C12: clients are authenticated only by their own credentials and method."""
import contextlib
import base64

from vf import gen
from vf import oauth as O

SCALE = 3
DEEP = 4
RULE = ("Token requests of all three grants and revocation requests are sent with generated credentials: every placement (Basic header, form body, URL, none, several at once) of "
        "right, near-miss (case, prefix, truncation, padding, look-alike, other client's) and missing secrets, for clients of every registered method, inside histories in which "
        "secrets are rotated, methods changed and clients removed. A recording storage shows what was issued, revoked or changed and for which client; an independent specification of "
        "RFC 6749 client authentication decides the expected outcome from the current registration. A case is one (operation, credentials, registration).")

SCOPES = ["a", "b"]
URI = "https://c.example/cb"
OPS = ["client_credentials", "refresh_token", "authorization_code", "revoke"]
METHODS = ["client_secret_basic", "client_secret_post", "none"]
GRANTS = ["authorization_code", "refresh_token", "client_credentials"]


class World:
    def __init__(self, c, rng, name, clients):
        self.c, self.rng = c, rng
        self.s = O.Store(name)
        self.user = self.s.add(O.User("u1"))
        for cl in clients:
            self.s.add(cl)
        self.p = O.provider(self.s, SCOPES)
        self.k = 0

    # ---- specification
    def expect(self, op, basic, form, query):
        """('ok', client) | ('refuse',) | ('either',)"""
        clients = self.s.clients
        b = basic if basic and basic[0] and basic[1] else None
        fid, fsec = form.get("client_id") or None, form.get("client_secret") or None
        if b and fsec:
            return ("refuse",)
        if b:
            cl = clients.get(b[0])
            ok = cl is not None and cl.method == "client_secret_basic" and cl.secret is not None and cl.secret == b[1]
            if fid is not None and fid != b[0]:
                return ("either",) if ok else ("refuse",)
            return ("ok", cl) if ok else ("refuse",)
        if fid and fsec:
            cl = clients.get(fid)
            ok = cl is not None and cl.method == "client_secret_post" and cl.secret is not None and cl.secret == fsec
            if ok and basic:
                return ("either",)
            return ("ok", cl) if ok else ("refuse",)
        if fid:
            cl = clients.get(fid)
            ok = cl is not None and cl.method == "none" and cl.secret is None and op != "client_credentials"
            if ok and (basic or query.get("client_secret")):
                return ("either",)
            return ("ok", cl) if ok else ("refuse",)
        if query.get("client_id"):
            cl = clients.get(query["client_id"])
            if cl is not None and cl.method == "none" and op != "client_credentials":
                return ("either",)
        return ("refuse",)

    def valid_for(self, client_id, op, basic, form, query):
        """Do the presented credentials belong to client_id at all?"""
        cl = self.s.clients.get(client_id)
        if cl is None:
            return False
        if cl.method == "client_secret_basic":
            return bool(basic) and basic == (cl.id, cl.secret)
        if cl.method == "client_secret_post":
            return form.get("client_id") == cl.id and form.get("client_secret") == cl.secret
        return op != "client_credentials" and cl.secret is None and cl.id in (form.get("client_id"), query.get("client_id"))

    def send(self, op, target, basic=None, form=None, query=None, header=None, header_name="Authorization", style="qp", kind="matrix"):
        """One request whose grant is valid for `target`; credentials as given."""
        c, s = self.c, self.s
        form, query = dict(form or {}), dict(query or {})
        creds_form = dict(form)
        want = self.expect(op, basic, creds_form, query)
        if want[0] == "ok":
            target = want[1]  # the grant belongs to the client that authenticates
        self.k += 1
        headers = {}
        if basic is not None:
            headers[header_name] = O.basic(*basic, scheme=["Basic", "Basic", "basic", "BASIC", "bAsIc"][self.k % 5])
        if header is not None:
            headers[header_name] = header
        if op == "client_credentials":
            form["grant_type"] = op
        elif op == "refresh_token":
            form.update(grant_type=op, refresh_token=s.put_refresh("rt%d" % self.k, target, self.user, ["a"]))
        elif op == "authorization_code":
            v = "v" * 43
            form.update(grant_type=op, code=s.put_code("code%d" % self.k, target, self.user, URI, ["a"], v), redirect_uri=URI, code_verifier=v)
        else:
            s.access["at%d" % self.k] = (("client", target.id), ("user", "u1"), ["a"])
            form.update(token="at%d" % self.k)
        before, mark = s.snapshot(), s.mark()
        r = O.req(form=form, query=query, headers=headers, style=style)
        detail = dict(op=op, basic=basic, header=header, form=creds_form, query=query, client=s.clients.get((basic or (None,))[0] or creds_form.get("client_id")), expected=want)
        rep = O.must(c, self.p.revoke if op == "revoke" else self.p.token, r, "client authentication", **detail)
        c.case(kind + ":" + op, (basic, header, sorted(creds_form.items()), sorted(query.items()), want[0], repr(target), self.s.name), sample=(op, basic, creds_form, query, want[0]))
        if rep is None:
            return None
        effects = s.since(mark, O.EFFECTS)
        success = rep.status == 200
        detail["reply"], detail["effects"] = rep, effects
        for e in effects:
            who = [a[1] for a in e.args if isinstance(a, tuple) and a and a[0] == "client"]
            if who:
                c.check(self.valid_for(who[0], op, basic, creds_form, query), "storage changed on behalf of a client whose credentials were not presented", **detail)
        if want[0] == "ok":
            c.count("accepted")
            c.check(success, "right credentials were refused", **detail)
            names = [a for e in effects for a in e.args if isinstance(a, tuple) and a and a[0] == "client"]
            c.check(("client", want[1].id) in names, "accepted request was not processed for the authenticated client", **detail)
        elif want[0] == "refuse":
            c.count("refused")
            c.check(not success and rep.status in (400, 401), "request without valid client credentials was accepted", **detail)
            if not success:
                c.check(rep.error == "invalid_client", "refused with an error other than invalid_client", **detail)
                if basic and basic[0] and basic[1] and not creds_form.get("client_secret"):
                    c.count("challenges")
                    c.check(rep.headers.get("www-authenticate", "").lower().split(None, 1)[:1] == ["basic"], "refused Basic credentials are not answered with a Basic challenge", **detail)
                if op == "revoke":
                    c.check(rep.status == 401, "failed client authentication at revocation must be answered 401", **detail)
            c.check(not effects and s.snapshot() == before, "a refused request issued, revoked or changed something", **detail)
        else:
            c.count("unspecified")
        # drop leftovers so that the world stays small
        s.codes.clear(); s.refresh.clear(); s.access.clear(); del s.revoked[:]
        del s.log[:]
        return rep

    def present(self, op, client_id, secret, placement, target, **kw):
        if placement == "basic":
            return self.send(op, target, basic=(client_id, secret), **kw)
        if placement == "post":
            return self.send(op, target, form={"client_id": client_id, "client_secret": secret}, **kw)
        if placement == "none":
            return self.send(op, target, form={"client_id": client_id}, **kw)
        if placement == "url":
            return self.send(op, target, query={"client_id": client_id, "client_secret": secret}, **kw)
        if placement == "urlsecret":
            return self.send(op, target, form={"client_id": client_id}, query={"client_secret": secret}, **kw)
        if placement == "urlid":
            return self.send(op, target, form={"client_secret": secret}, query={"client_id": client_id}, **kw)
        if placement == "both":
            return self.send(op, target, basic=(client_id, secret), form={"client_id": client_id, "client_secret": secret}, **kw)
        if placement == "both-noid":
            return self.send(op, target, basic=(client_id, secret), form={"client_secret": secret}, **kw)
        if placement == "nothing":
            return self.send(op, target, **kw)
        if placement == "basic+id":
            return self.send(op, target, basic=(client_id, secret), form={"client_id": client_id}, **kw)
        if placement == "basic-empty":
            return self.send(op, target, basic=(client_id, ""), **kw)
        if placement == "bearer":
            return self.send(op, target, header="Bearer " + base64.b64encode(("%s:%s" % (client_id, secret)).encode()).decode(), **kw)
        raise ValueError(placement)


PLACEMENTS = ["basic", "post", "none", "url", "urlsecret", "urlid", "both", "both-noid", "nothing", "basic+id", "basic-empty", "bearer"]


def client(id, secret, method):
    return O.Client(id, None if method == "none" else secret, method, SCOPES, [URI], GRANTS)


SECRETS = ["s3cret", "S3CRET", "pass:word", ":lead", "trail:", "a%20b", "a b", "a+b", "p%C3%A9", "é", "e\u0301", "ключ", "x" * 100, "k" * 72 + "tail", "m" * 254 + "ab", "tab\tbed", "nul\0in", "1", "0", "None",
           "null", "true", "a&b=c", "a=b", "\U0001f600key", "K\u212a", "stra\u00dfe", "-_.~", "a,b", "\"q\"", "quo'te", "back\\slash", "a/b+c==", "ends ", " starts"]
IDS = ["client", "Client", "c-1", "c.2", "c_3", "c~4", "c 5", "c+6", "c%7", "cé", "c&8", "c=9", "0", "None", "https://client.example/id", "c@x.y", "x" * 80]


def matrix(c, rng):
    """Every placement x registered method x right/other secret, all operations."""
    w = World(c, rng, "m", [client("b1", "sec-b", "client_secret_basic"), client("p1", "sec-p", "client_secret_post"), client("n1", None, "none"),
                            client("b2", "sec-2", "client_secret_basic"), client("p2", "sec-2", "client_secret_post"), client("n2", None, "none")])
    odd = O.Client("odd", None, "client_secret_basic", SCOPES, [URI], GRANTS)
    odd2 = O.Client("odd2", None, "client_secret_post", SCOPES, [URI], GRANTS)
    odd3 = O.Client("odd3", "sec-3", "none", SCOPES, [URI], GRANTS)   # registered without a method for its secret
    w.s.add(odd, odd2, odd3)
    for op in OPS:
        for cl in list(w.s.clients.values()):
            secrets = [cl.secret or "None", "sec-b", "sec-p", "sec-2", "None", "wrong", "SEC-B", "sec-p "]
            for pl in PLACEMENTS:
                for sec in dict.fromkeys(secrets):
                    w.present(op, cl.id, sec, pl, cl)
        for pl in PLACEMENTS:  # unknown client
            for cid in ("ghost", "B1", "b1 ", "b", "b11"):
                w.present(op, cid, "sec-b", pl, w.s.clients["b1"])
        # mixtures of two clients
        cls = list(w.s.clients.values())
        for x in cls[:6]:
            for y in cls[:6]:
                if x is y:
                    continue
                w.send(op, x, basic=(x.id, x.secret or "z"), form={"client_id": y.id}, kind="mixed")
                w.send(op, x, basic=(x.id, y.secret or "z"), form={"client_id": y.id}, kind="mixed")
                w.send(op, x, basic=(x.id, x.secret or "z"), form={"client_id": y.id, "client_secret": y.secret or "z"}, kind="mixed")
                w.send(op, y, basic=(x.id, "bad"), form={"client_id": y.id, "client_secret": y.secret or "z"}, kind="mixed")
                w.send(op, x, form={"client_id": x.id, "client_secret": y.secret or "z"}, query={"client_id": y.id}, kind="mixed")
                w.send(op, x, form={"client_id": x.id, "client_secret": "bad"}, query={"client_id": x.id, "client_secret": x.secret or "z"}, kind="mixed")
                w.send(op, x, basic=(x.id, "bad"), query={"client_id": x.id, "client_secret": x.secret or "z"}, kind="mixed")


def texts(c, rng):
    """Right and near-miss secrets and IDs over many alphabets."""
    per = c.n(12, 60)
    for method in METHODS[:2]:
        pl = "basic" if method.endswith("basic") else "post"
        for i, sec in enumerate(SECRETS + [gen.text(rng, 1, 40) for _ in range(c.n(10, 200))]):
            cid = IDS[i % len(IDS)] if ":" not in IDS[i % len(IDS)] or pl == "post" else "plain"
            w = World(c, rng, "t%s%d" % (pl, i), [client(cid, sec, method), client("other", "other-secret", method)])
            cl = w.s.clients[cid]
            op = OPS[i % 4]
            w.present(op, cid, sec, pl, cl, kind="right", style=rng.choice(["qp", "pct", "all", "low", "raw"]))
            near = gen.near_misses(sec)
            rng.shuffle(near)
            for bad in near[:per]:
                w.present(rng.choice(OPS), cid, bad, pl, cl, kind="near-secret", style=rng.choice(["qp", "pct", "raw"]))
            near = [x for x in gen.near_misses(cid) if x != "other"]
            rng.shuffle(near)
            for bad in near[:per // 2]:
                if pl == "basic" and ":" in bad:
                    continue
                w.present(rng.choice(OPS), bad, sec, pl, cl, kind="near-id")
            w.present(op, cid, "other-secret", pl, cl, kind="other-secret")
            w.present(op, "other", sec, pl, cl, kind="other-secret")
            w.present(op, cid, sec, pl, cl, kind="right")
    # header name and scheme in any case
    w = World(c, rng, "h", [client("b1", "sec:ret", "client_secret_basic")])
    for name in ("Authorization", "authorization", "AUTHORIZATION", "aUthOrization"):
        w.present("client_credentials", "b1", "sec:ret", "basic", w.s.clients["b1"], header_name=name, kind="header")
        w.present("client_credentials", "b1", "sec:re", "basic", w.s.clients["b1"], header_name=name, kind="header")


def histories(c, rng):
    """State of the registration changes while requests go on: nothing may be remembered."""
    for h in range(c.n(12, 120)):
        clients = []
        for i in rng.sample(range(6), 4):
            m = rng.choice(METHODS)
            clients.append(client(O.CIDS[i], rng.choice(SECRETS) + str(rng.randrange(100)), m))
        w = World(c, rng, "h%d" % h, clients)
        old = []
        for _ in range(c.n(120, 300)):
            cl = rng.choice(list(w.s.clients.values()) or [w.s.add(client("c9", "zz", METHODS[0]))])
            r = rng.random()
            if r < 0.10:
                new = O.Client(cl.id, rng.choice(SECRETS) + str(rng.randrange(100)), cl.method, SCOPES, [URI], GRANTS)
                if cl.method == "none":
                    new.secret = None
                old.append((cl.id, cl.secret, cl.method))
                w.s.add(new)
            elif r < 0.16:
                m = rng.choice(METHODS)
                old.append((cl.id, cl.secret, cl.method))
                cl.method = m
                cl.secret = None if m == "none" else (cl.secret or "fresh")
            elif r < 0.19 and len(w.s.clients) > 1:
                del w.s.clients[cl.id]
                old.append((cl.id, cl.secret, cl.method))
            elif r < 0.22:
                w.s.add(client(O.CIDS[rng.randrange(6)], rng.choice(SECRETS), rng.choice(METHODS)))
            op = rng.choice(OPS)
            pl = {"client_secret_basic": "basic", "client_secret_post": "post", "none": "none"}[cl.method]
            r = rng.random()
            if r < 0.45:
                w.present(op, cl.id, cl.secret or "zz", pl, cl, kind="history")
            elif r < 0.6 and old:
                i, sec, m = rng.choice(old)
                w.present(op, i, sec or "zz", {"client_secret_basic": "basic", "client_secret_post": "post", "none": "none"}[m], w.s.clients.get(i, cl), kind="history")
            elif r < 0.8:
                w.present(op, cl.id, rng.choice(gen.near_misses(cl.secret or "zz")), pl, cl, kind="history")
            else:
                w.present(op, cl.id, cl.secret or "zz", rng.choice(PLACEMENTS), cl, kind="history")
    c.count("histories", c.n(12, 120))


def random_mix(c, rng):
    """Any combination of header, form and URL credentials."""
    w = World(c, rng, "r", [client("b1", "k1", "client_secret_basic"), client("p1", "k1", "client_secret_post"), client("n1", None, "none"), client("b2", "k2", "client_secret_basic"),
                            client("p2", "k2", "client_secret_post")])
    ids, secs = ["b1", "p1", "n1", "b2", "p2", "ghost", ""], ["k1", "k2", "K1", "", "None", "k"]
    plan = [None] * c.n(3000, 60000) + [f for f in O.forcings() for _ in range(c.n(15, 60))]
    for force in plan:
        with O.forced(*force) if force else contextlib.nullcontext():
            mix(w, rng, ids, secs)


def mix(w, rng, ids, secs):
    b = (rng.choice(ids), rng.choice(secs)) if rng.random() < 0.5 else None
    form = {k: v for k, v in (("client_id", rng.choice(ids)), ("client_secret", rng.choice(secs))) if rng.random() < 0.55}
    query = {k: v for k, v in (("client_id", rng.choice(ids)), ("client_secret", rng.choice(secs))) if rng.random() < 0.2}
    t = w.s.clients.get(rng.choice([b[0] if b else "", form.get("client_id", ""), query.get("client_id", "")])) or w.s.clients["n1"]
    w.send(rng.choice(OPS), t, basic=b, form=form, query=query, kind="random")


def run(c):
    matrix(c, c.sub_rng("matrix"))
    texts(c, c.sub_rng("texts"))
    histories(c, c.sub_rng("hist"))
    random_mix(c, c.sub_rng("mix"))
    c.require("accepted", 500)
    c.require("refused", 3000)
