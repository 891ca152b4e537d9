"""C20: only authenticated clients can revoke, and exactly the token they name."""
import copy

from vf import gen
from vf import oauth as O

SCALE = 3
DEEP = 3
RULE = ("Revocation requests by clients of every authentication method with generated tokens (live, of other clients, unknown, near-miss, any Unicode), hints (supported, near-miss, absent) and credential faults, "
        "in histories over shared storage. The storage operations of each request are compared with the request: exactly one revocation with the authenticated client, token and hint, or none; status and remaining "
        "tokens are checked. A case is one (client, credentials, token, hint).")

METHODS = ["client_secret_basic", "client_secret_post", "none"]
URI = "https://c.example/cb"
G = ["authorization_code", "refresh_token", "client_credentials"]
HINTS = ["access_token", "refresh_token"]


class World:
    def __init__(self, c, rng, name):
        self.c, self.rng = c, rng
        self.s = O.Store(name)
        self.user = self.s.add(O.User("u"))
        for i, m in enumerate(METHODS * 2):
            self.s.add(O.Client(O.CIDS[i], None if m == "none" else "sec:%d" % i, m, ["a", "b"], [URI], G if i % 2 else []))
        self.p = O.provider(self.s, ["a", "b"])
        self.k = 0

    def fill(self):
        for cl in self.s.clients.values():
            self.k += 1
            self.s.put_refresh("rt-%d" % self.k, cl, self.user, ["a"])
            self.s.access["at-%d" % self.k] = (("client", cl.id), ("user", "u"), ["a"])
            self.s.put_code("co-%d" % self.k, cl, self.user, URI, ["a"], "v" * 43)

    def send(self, cl, token, hint=None, fault=None, kind="valid", style="qp", extra=None, query=None):
        """fault: None, or a function (form, headers) -> None that spoils the credentials."""
        c, s = self.c, self.s
        form = {}
        if token is not None:
            form["token"] = token
        if hint is not None:
            form["token_type_hint"] = hint
        form.update(extra or {})
        f, h = O.client_auth(cl, form)
        if fault:
            fault(f, h)
        items = list(f.items())
        self.rng.shuffle(items)
        before = (set(s.codes), set(s.access), set(s.refresh))
        mine_at, mine_rt = s.access.get(token), s.refresh.get(token)
        mark = s.mark()
        detail = dict(client=cl, form=items, headers=h, query=query, fault=bool(fault))
        rep = O.must(c, self.p.revoke, O.req(form=items, headers=h, query=query, style=style), "revocation", **detail)
        c.case(kind, (cl.id, tuple(sorted(map(str, items))), str(h), str(query)), sample=(cl, items))
        if rep is None:
            return
        ev = s.since(mark, O.EFFECTS)
        after = (set(s.codes), set(s.access), set(s.refresh))
        detail.update(reply=rep, effects=ev)
        c.check(all(e.name == "revoke_token" for e in ev), "a revocation request did something other than revoking", **detail)
        if kind == "other-client-named" and rep.status in (400, 401) and not ev:
            c.count("named-another-refused")       # as good an answer
        elif fault:
            c.count("unauthenticated")
            c.check(rep.status == 401 and rep.error == "invalid_client", "failed authentication is not answered 401 invalid_client", **detail)
            c.check(not ev and before == after, "an unauthenticated request touched a token", **detail)
        elif not token:
            c.count("no-token")
            c.check(not ev and before == after, "a request without a token revoked something", **detail)
            c.check(rep.status in (200, 400), "a request without a token is answered %d" % rep.status, **detail)
        elif hint and hint not in HINTS:
            c.count("bad-hint")
            c.check(rep.status == 400 and rep.error in O.OAUTH_ERRORS, "an unsupported hint is not answered 400 with an error", **detail)
            c.check(not ev and before == after, "a request with an unsupported hint touched a token", **detail)
        else:
            c.count("revoked")
            c.check(rep.status == 200, "a valid revocation is answered %d" % rep.status, **detail)
            c.check(len(ev) == 1, "a valid revocation reached the storage %d times" % len(ev), **detail)
            for e in ev:
                c.check(e.args == (("client", cl.id), token, hint or None), "the storage was asked to revoke something else than submitted", **detail)
            gone = set()
            if mine_at is not None and mine_at[0] == ("client", cl.id):
                gone.add(token)
            c.check(before[0] == after[0] and before[1] - after[1] == gone and before[2] - after[2] <= {token}, "another token was affected", **detail)
            if mine_at is not None or mine_rt is not None:
                c.count("live-token")
            else:
                c.count("unknown-token")
        del s.log[:]


def spoilers(rng, w, cl):
    others = [x for x in w.s.clients.values() if x is not cl]
    def wrong_secret(f, h):
        if cl.method == "client_secret_basic":
            h["Authorization"] = O.basic(cl.id, rng.choice(gen.near_misses(cl.secret)))
        elif cl.method == "client_secret_post":
            f["client_secret"] = rng.choice(gen.near_misses(cl.secret))
        else:
            f["client_secret"] = "x"
    def no_credentials(f, h):
        f.pop("client_id", None); f.pop("client_secret", None); h.pop("Authorization", None)
    def unknown(f, h):
        no_credentials(f, h)
        if cl.method == "client_secret_basic":
            h["Authorization"] = O.basic("ghost", cl.secret)
        else:
            f["client_id"] = "ghost"
            if cl.secret:
                f["client_secret"] = cl.secret
    def other_method(f, h):
        no_credentials(f, h)
        if cl.method == "client_secret_basic":
            f["client_id"], f["client_secret"] = cl.id, cl.secret
        else:
            h["Authorization"] = O.basic(cl.id, cl.secret or "x")
    def id_only(f, h):
        no_credentials(f, h)
        if cl.method == "none":
            return
        f["client_id"] = cl.id
    def other_secret(f, h):
        o = rng.choice([x for x in others if x.secret])
        no_credentials(f, h)
        if cl.method == "client_secret_basic":
            h["Authorization"] = O.basic(cl.id, o.secret)
        else:
            f["client_id"], f["client_secret"] = cl.id, o.secret
    return [wrong_secret, no_credentials, unknown, other_method, id_only, other_secret]


def run(c):
    rng = c.sub_rng("main")
    for wi in range(c.n(10, 120)):
        w = World(c, rng, "w%d" % wi)
        for step in range(c.n(500, 1200)):
            if step % 60 == 0:
                w.fill()
            cl = rng.choice(list(w.s.clients.values()))
            live = sorted(w.s.access) + sorted(w.s.refresh) + sorted(w.s.codes)
            r = rng.random()
            if r < 0.45 and live:
                token = rng.choice(live)
            elif r < 0.6 and live:
                token = rng.choice(gen.near_misses(rng.choice(live))) or "x"
            elif r < 0.9:
                token = rng.choice([gen.uni_text(rng, 1, 40), gen.text(rng, 1, 60), "x" * rng.choice([1, 500, 5000]), "%41", "a+b", "a b", "é", "null", "None", "0"])
            else:
                token = rng.choice([None, ""])
            r = rng.random()
            hint = None
            if r < 0.4:
                hint = rng.choice(HINTS)
            elif r < 0.55:
                hint = rng.choice(gen.near_misses(rng.choice(HINTS)) + ["id_token", "authorization_code", "x", "access_token refresh_token"]) or None
                if hint in HINTS:
                    hint = None
            fault = rng.choice(spoilers(rng, w, cl)) if rng.random() < 0.25 else None
            extra = rng.choice([None, None, None, {"client": "c0"}, {"hint": "x"}, {"tokens": "y"}, {"grant_type": "client_credentials"}, {"access_token": "q"}])
            if rng.random() < 0.06 and live:
                # only in the URL: not submitted
                w.send(cl, rng.choice([None, None, ""]), rng.choice([None, "access_token"]), None, kind="url-only", query=dict({"token": rng.choice(live)}, **rng.choice([{}, {"token_type_hint": "refresh_token"}])))
                c.count("url-only")
                continue
            if cl.secret and rng.random() < 0.05:
                # the secret is replaced: the old one counts no more, the new one does
                w.send(cl, token, hint, None, kind="valid")
                old, cl = cl.secret, copy.copy(cl)
                cl.secret = gen.text(rng, 8, 30)
                w.s.clients[cl.id] = cl
                def stale(f, h, old=old, cl=cl):
                    if cl.method == "client_secret_basic":
                        h["Authorization"] = O.basic(cl.id, old)
                    else:
                        f["client_secret"] = old
                if old != cl.secret:
                    w.send(cl, token, hint, stale, kind="stale-secret")
                w.send(cl, token, hint, None, kind="new-secret")
                continue
            if cl.method == "client_secret_basic" and rng.random() < 0.15:
                # the header says who asks, whoever else the body names
                extra = dict(extra or {}, client_id=rng.choice([x.id for x in w.s.clients.values() if x is not cl]))
                w.send(cl, token, hint, None, kind="other-client-named", extra=extra)
                continue
            # a token in the URL must not change which one the form names
            query = {"token": rng.choice(live or ["q"])} if token and rng.random() < 0.1 else ({"client_id": "c1"} if rng.random() < 0.05 and token else None)
            w.send(cl, token, hint, fault, kind="fault" if fault else "valid", style=rng.choice(["qp", "pct", "all", "low", "raw"]), extra=extra, query=query)
    w = World(c, rng, "n")
    for force in O.forcings():
        w.fill()
        with O.forced(*force):
            for cl in rng.sample(list(w.s.clients.values()), min(4, len(w.s.clients))):
                live = sorted(w.s.access) + sorted(w.s.refresh)
                for fault in [None] + rng.sample(spoilers(rng, w, cl), 2):
                    w.send(cl, rng.choice(live), rng.choice(HINTS + [None]), fault, kind="company")
    # issue through the library, then revoke
    w = World(c, rng, "e")
    for _ in range(c.n(100, 1500)):
        cl = rng.choice([x for x in w.s.clients.values() if x.grants])
        code = w.s.put_code("k%d" % w.k, cl, w.user, URI, ["a"], "v" * 43)
        w.k += 1
        rep = O.must(c, w.p.token, O.token_req(cl, {"grant_type": "authorization_code", "code": code, "redirect_uri": URI, "code_verifier": "v" * 43}), "redemption")
        if rep and rep.is_token:
            del w.s.log[:]
            for t, hint in ((rep.json.get("access_token"), "access_token"), (rep.json.get("refresh_token"), "refresh_token")):
                if t:
                    w.send(rng.choice([cl, rng.choice(list(w.s.clients.values()))]), t, rng.choice([hint, None, rng.choice(HINTS)]), kind="issued")
    c.require("revoked", 1500)
    c.require("unauthenticated", 500)
    c.require("bad-hint", 200)
    c.require("no-token", 100)
    c.require("url-only", 100)
    c.require("live-token", 300)
    c.require("unknown-token", 300)
