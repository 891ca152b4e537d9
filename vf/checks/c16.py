"""C16: an authorization code is redeemed at most once, under any interleaving, fault and cancellation."""
import hashlib
import itertools

from vf import keys, sched
from vf import oauth as O
from vf.psi import jwk

RULE = ("Several requests presenting one code (valid, wrong verifier, wrong redirect URI, another client, unauthenticated) run concurrently on one provider under a controlled scheduler: every storage call and every request start is a "
        "suspension point. For two requests all interleavings are enumerated, for more they are sampled; storage failures (before or after the effect) and cancellations are injected at every point of every request, also combined "
        "with interleavings. An offline checker over the event log counts successful responses per code and orders request ends against request starts; afterwards the code is presented again. A case is one executed schedule; "
        "distinct ones are counted by the hash of the event order plus injected faults.")
LEVEL = "exploration"

URI, OTHER = "https://c.example/cb", "https://c.example/other"
V = "v" * 43
NEAR = [lambda x: x + " ", lambda x: " " + x, lambda x: x + "\n", lambda x: x + "\0", lambda x: x + "=", lambda x: x.upper(), lambda x: x.lower(), lambda x: x.swapcase(), lambda x: '"%s"' % x,
        lambda x: x + "#x", lambda x: x + ",x", lambda x: x + "x" * 64, lambda x: x + "\u200b", lambda x: x.replace("e", "\uff45", 1), lambda x: "x" + x, lambda x: "".join("%%%02X" % b for b in x.encode())]


class Lab:
    def __init__(self, c, oidc, name):
        self.c, self.oidc, self.name = c, oidc, name
        self.runs = 0

    def fresh(self):
        s = O.Store(self.name)
        s.add(O.User("u"))
        s.add(O.Client("b", "sec", "client_secret_basic", ["openid", "a"], [URI, OTHER], ["authorization_code", "refresh_token"]))
        s.add(O.Client("p", "sec", "client_secret_post", ["openid", "a"], [URI, OTHER], ["authorization_code"]))
        s.add(O.Client("n", None, "none", ["openid", "a"], [URI, OTHER], ["authorization_code", "refresh_token"]))
        s.keyinfo = {"key": KEY, "alg": "HS256"}
        p = O.provider(s, ["openid", "a"], oidc=self.oidc)
        return s, p

    def request(self, s, p, kind, owner, code):
        f = {"grant_type": "authorization_code", "code": code, "redirect_uri": URI, "code_verifier": V}
        cl = s.clients[owner]
        if kind.startswith("near"):   # another text that a sloppy reader takes for the code
            f["code"] = NEAR[int(kind[4:])](code)
        elif kind == "verifier":
            f["code_verifier"] = "w" * 43
        elif kind == "noverifier":
            del f["code_verifier"]
        elif kind == "nouri":
            del f["redirect_uri"]
        elif kind == "nothing":
            del f["redirect_uri"], f["code_verifier"]
        elif kind == "query":      # the same parameters in the URL
            f, h = O.client_auth(cl, {})
            return O.req(form=f, headers=h, query={"grant_type": "authorization_code", "code": code, "redirect_uri": URI, "code_verifier": V})
        elif kind == "uri":
            f["redirect_uri"] = OTHER
        elif kind == "client":
            cl = s.clients["p" if owner != "p" else "b"]
        elif kind == "unauth":
            bad = O.Client(cl.id, "wrong", "client_secret_post")
            return O.token_req(bad, f)
        return O.token_req(cl, f)

    def execute(self, kinds, choose, owner="b", scopes=("openid", "a"), faults=None, phases=("enter",), retry=True, before=None, code="the-code"):
        """One schedule. Returns the scheduler's choices."""
        c = self.c
        s, p = self.fresh()
        code = s.put_code(code, s.clients[owner], s.users["u"], URI, scopes, V, nonce="n")
        if before:
            before(s, p)
        run = sched.Run(s, phases)
        run.faults = dict(faults or {})
        jobs = []
        for i, k in enumerate(kinds):
            r = self.request(s, p, k, owner, code)
            jobs.append(run.job("%d:%s" % (i, k), lambda r=r: p.token(r)))
        try:
            choices = run.go(jobs, choose)
        except sched.Stuck:
            c.fail("requests never end: every storage call returned but a request is still waiting", kinds=kinds, trace=run.trace)
            return []
        order = [t for t in run.trace]
        ends = {t: i for i, (t, ph, _) in enumerate(order) if ph == "end"}
        starts = {t: i for i, (t, ph, _) in enumerate(order) if ph == "start"}
        results = dict(run.results)
        late = None
        if retry:
            for n in range(2):
                st, rep = O.call(p.token, self.request(s, p, "valid", owner, code))
                tag = "retry%d" % n
                results[tag] = (st, rep)
                starts[tag] = len(order) + n
                ends[tag] = len(order) + n
        ok = [t for t, (st, rep) in results.items() if st == "ok" and rep.is_token]
        h = hashlib.blake2b(repr((kinds, owner, order, run.injected, scopes)).encode(), digest_size=8).hexdigest()
        c.case("schedule:%d" % len(kinds), h, sample=(kinds, order))
        self.runs += 1
        c.count("storage-events", len(s.log))
        c.count("successes", len(ok))
        detail = dict(kinds=kinds, owner=owner, injected=run.injected, trace=order, results={t: (st, rep) for t, (st, rep) in results.items()}, success=ok)
        c.check(len(ok) <= 1, "one authorization code was redeemed %d times" % len(ok), **detail)
        delete_hit = any(name == "delete_authorization_code" for _, _, _, name in run.injected)
        if run.injected:
            c.count("injected:" + run.injected[0][1] + ":" + run.injected[0][3])
        for t in ok:
            for a in results:
                if a == t or a.startswith("retry") and a > t:
                    continue
                kind = a.split(":")[-1]
                if kind == "unauth" or kind.startswith("near") or a not in ends or t not in starts:
                    continue
                # the client must have been authenticated: a fault before or while the client is looked up does not count
                hit = [x for x in run.injected if x[0] == a]
                if hit and hit[0][3] in ("find_client", "start"):
                    continue
                if ends[a] < starts[t]:
                    c.check(delete_hit, "a code was redeemed by a request that started after another request presenting it had ended", earlier=a, later=t, **detail)
        if not run.injected and all(k == "valid" for k in kinds):
            c.count("all-valid")
            c.check(len([t for t in ok if not t.startswith("retry")]) == 1, "none of several valid requests redeemed the code", **detail)
        return choices


def crowd(c, lab, rng, choose):
    s, p = lab.fresh()
    run = sched.Run(s, rng.choice([("enter",), ("exit",), ("enter", "exit")]))
    jobs, owners = [], {}
    for i in range(rng.choice([2, 5, 9, 20])):
        owner = rng.choice("bpn")
        code = s.put_code("code-%d" % i, s.clients[owner], s.users["u"], URI, ["a"], V)
        owners[code] = owner
        for j in range(rng.randint(1, 3)):
            kind = rng.choice(["valid", "valid", "valid", "verifier", "query"])
            r = lab.request(s, p, kind, owner, code)
            jobs.append(run.job("%s/%d:%s" % (code, j, kind), lambda r=r: p.token(r)))
    rng.shuffle(jobs)
    if rng.random() < 0.3:
        run.faults = {(rng.choice(jobs)[0], rng.randrange(1, 10)): rng.choice(["raise", "cancel"]) for _ in range(rng.randint(1, 4))}
    try:
        run.go(jobs, choose)
    except sched.Stuck:
        c.fail("requests never end: every storage call returned but a request is still waiting", trace=run.trace)
        return
    ok = {}
    for tag, (st, rep) in run.results.items():
        if st == "ok" and rep.is_token:
            ok.setdefault(tag.split("/")[0], []).append(tag)
    for code, owner in owners.items():
        st, rep = O.call(p.token, lab.request(s, p, "valid", owner, code))
        if st == "ok" and rep.is_token:
            ok.setdefault(code, []).append("again")
    lost = {x[0].split("/")[0] for x in run.injected}
    h = hashlib.blake2b(repr((run.trace, run.injected)).encode(), digest_size=8).hexdigest()
    c.case("crowd", h, sample=(len(jobs), len(owners)))
    c.count("crowd-codes", len(owners))
    for code in owners:
        if code in lost:
            c.check(len([t for t in ok.get(code, []) if t != "again"]) <= 1, "one authorization code was redeemed several times", code=code, success=ok.get(code), trace=run.trace, injected=run.injected)
        else:
            c.check(len(ok.get(code, [])) <= 1, "one authorization code was redeemed several times", code=code, success=ok.get(code), trace=run.trace, injected=run.injected)


TEXTS = ["the-code", "The-cOde_" + "e9-Z" * 13 + "abc", "e" * 64]   # short, and as long as the library's
KEY = None


def run(c):
    global KEY
    rng = c.sub_rng("main")
    KEY = jwk(keys.seeded_oct(rng), kid="k")
    labs = [Lab(c, False, "plain"), Lab(c, True, "oidc")]
    rnd = lambda n, i, tags: rng.randrange(n)

    pct = lambda: sched.pct(rng)
    # all interleavings of two requests
    complete = True
    for lab in labs:
        for other in ("valid", "verifier", "uri", "client", "unauth", "noverifier", "nouri", "nothing", "query"):
            for owner in ("b", "n") if not lab.oidc else ("b",):
                n, done = sched.enumerate_all(lambda ch: lab.execute(["valid", other], ch, owner=owner), c.n(1500, 60000))
                c.count("interleavings:valid+%s" % other, n)
                c.count("enumerations-complete" if done else "enumerations-cut")
                complete = complete and done
        for i in range(len(NEAR)):
            n, done = sched.enumerate_all(lambda ch: lab.execute(["valid", "near%d" % i], ch, code=TEXTS[i % 3]), c.n(60, 3000))
            c.count("interleavings:valid+near", n)
    # three to six requests, sampled
    for i in range(c.n(1200, 25000)):
        lab = rng.choice(labs)
        kinds = [rng.choice(["valid", "valid", "valid", "verifier", "uri", "client", "unauth", "noverifier", "nouri", "nothing", "query"]) for _ in range(rng.randint(3, 6))]
        lab.execute(kinds, pct() if i % 2 else rnd, owner=rng.choice("bpn"), phases=rng.choice([("enter",), ("enter", "exit"), ("exit",)]))
    # sequential histories: ends and starts in order
    for first in ("valid", "verifier", "uri", "client", "noverifier", "nouri", "nothing", "query", "unauth"):
        for second in ("valid", "verifier", "valid"):
            for lab in labs:
                lab.execute([first, second, "valid"], lambda n, i, tags: 0)
    for i in range(len(NEAR)):
        for text in TEXTS:
            for lab in labs:
                for kinds in (["valid", "near%d"], ["near%d", "valid", "near%d"], ["verifier", "near%d", "valid"], ["near%d", "near%d", "valid"]):
                    lab.execute([k % i if "%" in k else k for k in kinds], lambda n, i, tags: 0, owner=rng.choice("bpn"), code=text)
    # a fault at every point of one request, alone and with a concurrent valid request
    for lab in labs:
        for phases in (("enter",), ("exit",), ("enter", "exit")):
            for kind in ("valid", "verifier", "client", "uri"):
                for act in ("raise", "cancel"):
                    for k in range(1, 24):
                        tag = "0:" + kind
                        before = lab.runs
                        hits = []
                        lab.execute([kind], lambda n, i, tags: 0, faults={(tag, k): act}, phases=phases)
                        for _ in range(c.n(2, 20)):
                            lab.execute([kind, "valid"], rng.choice([rnd, pct()]), faults={(tag, k): act}, phases=phases)
                        for _ in range(c.n(1, 10)):
                            lab.execute([kind, "valid", rng.choice(["valid", "verifier"])], rng.choice([rnd, pct()]), faults={(tag, k): act, ("1:valid", rng.randrange(1, 12)): rng.choice(["raise", "cancel"])}, phases=phases)
    # several faults at once
    for _ in range(c.n(600, 15000)):
        lab = rng.choice(labs)
        kinds = [rng.choice(["valid", "valid", "verifier", "client"]) for _ in range(rng.randint(2, 4))]
        faults = {("%d:%s" % (i, kinds[i]), rng.randrange(1, 14)): rng.choice(["raise", "cancel"]) for i in rng.sample(range(len(kinds)), rng.randint(1, len(kinds)))}
        lab.execute(kinds, rng.choice([rnd, pct()]), owner=rng.choice("bpn"), faults=faults, phases=rng.choice([("enter",), ("enter", "exit")]))
    # faults under all interleavings of two valid requests
    for act in ("raise", "cancel"):
        for k in range(1, 9):
            n, done = sched.enumerate_all(lambda ch: labs[0].execute(["valid", "valid"], ch, faults={("0:valid", k): act}), c.n(150, 6000))
            c.count("fault-interleavings", n)
    # many codes at once, each presented several times
    for i in range(c.n(150, 4000)):
        lab = rng.choice(labs)
        crowd(c, lab, rng, pct() if i % 2 else rnd)
    # many codes on one long-lived provider: reuse of old codes in any order
    for h in range(c.n(6, 60)):
        lab = rng.choice(labs)
        s, p = lab.fresh()
        dead, codes = set(), []
        for step in range(c.n(80, 300)):
            if not codes or rng.random() < 0.3:
                owner = rng.choice("bpn")
                codes.append((s.put_code("c%d-%s" % (len(codes), O.verifier(rng, 20)), s.clients[owner], s.users["u"], URI, ["a"], V), owner))
            code, owner = rng.choice(codes)
            kind = rng.choice(["valid", "valid", "verifier", "unauth", "client", "nouri", "noverifier", "nothing", "query"])
            st, rep = O.call(p.token, lab.request(s, p, kind, owner, code))
            c.case("history", (h, step, kind, code))
            if st == "ok" and rep.is_token:
                c.check(code not in dead, "a code was redeemed after an earlier request presenting it had ended", code=code, step=step, reply=rep)
                c.count("history-redemptions")
            if kind != "unauth":
                dead.add(code)  # presented by an authenticated client
    c.require("all-valid", 100)
    c.require("successes", 500)
    c.require("enumerations-complete", 6)
    for k in ("raise:get_authorization_code", "cancel:get_authorization_code", "raise:create_access_token", "cancel:create_access_token", "cancel:find_user", "raise:delete_authorization_code", "cancel:delete_authorization_code",
              "raise:create_refresh_token"):
        c.require("injected:" + k, 2)

