"""C25: concurrent requests never affect each other."""
import hashlib
import itertools
import json

from vf import core, keys, refjose as R, sched
from vf import oauth as O
from vf.pristine import Pristine
from vf.psi import jwk

RULE = ("Sets of two to eight requests on different codes and tokens (authorization, consent, code redemption, refresh, client credentials, revocation; valid and faulty; by different or the same clients and users) run concurrently "
        "on one provider under a controlled scheduler in which every storage call (entry and return) and request start is a suspension point: enumerated for pairs, sampled uniformly and by priority for larger sets. The response and the "
        "storage operations of each request, with issued values replaced by what they stand for, are compared with those of the same request alone on an equal storage. A case is one executed schedule; distinct ones are counted by event order.")

SUP = ["openid", "a", "b", "c"]
N = 4


def world():
    s = O.Store("x")
    for i in range(N):
        s.add(O.User(O.UIDS[i]))
        m = ["client_secret_basic", "client_secret_post", "none", "client_secret_basic"][i]
        s.add(O.Client(O.CIDS[i], None if m == "none" else "sec%d" % i, m, SUP if i != 3 else ["openid", "a", "b"], ["https://c%d.example/cb" % i, "https://shared.example/cb"],
                       ["authorization_code", "refresh_token", "client_credentials"] if i != 3 else ["authorization_code", "client_credentials"]))
    s.keyinfo = {"key": KEY[0], "alg": "HS256"}
    s.userinfo = lambda user, scopes: {"sub": user.id, "scopes": " ".join(sorted(scopes))}
    p = O.provider(s, SUP, oidc=True)
    return s, p


# A job is (kind, parameters); `slot` keeps its codes and tokens different from every other job's.
def prepare(job, slot, s):
    kind, i, u, sc = job
    cl, us = s.clients[O.CIDS[i]], s.users[O.UIDS[u]]
    if kind.startswith("code"):
        s.put_code("code%d" % slot, cl, us, cl.uris[0], sc, "v" * 42 + str(slot), nonce="nonce%d" % slot)
    if kind.startswith("refresh"):
        s.put_refresh("refresh%d" % slot, cl, us, sc)
    if kind.startswith("revoke"):
        s.access["access%d" % slot] = (("client", cl.id), ("user", us.id), list(sc))


def launch(job, slot, s, p):
    kind, i, u, sc = job
    cl, us = s.clients[O.CIDS[i]], s.users[O.UIDS[u]]
    if kind.startswith("authorize") or kind == "consent":
        q = {"response_type": "code", "client_id": cl.id, "redirect_uri": cl.uris[slot % 2], "scope": " ".join(sc), "state": "state%d" % slot, "nonce": "nonce%d" % slot, "code_challenge": "w" * 42 + str(slot), "code_challenge_method": "plain"}
        if kind == "authorize-bad-scope":
            q["scope"] = "a nope"
        elif kind == "authorize-bad-uri":
            q["redirect_uri"] = "https://evil.example/%d" % slot
        elif kind == "authorize-no-user":
            us = None
        r = O.req(query=q, user=us)
        return (lambda: p.authorize.get_consent_data(r)) if kind == "consent" else (lambda: p.authorize(r))
    if kind.startswith("revoke"):
        f, h = O.client_auth(cl, {"token": "access%d" % slot, "token_type_hint": ["access_token", "refresh_token"][slot % 2]})
        if kind == "revoke-unauth":
            f, h = {"token": "access%d" % slot}, {"Authorization": O.basic(cl.id, "bad")}
        r = O.req(form=f, headers=h)
        return lambda: p.revoke(r)
    if kind.startswith("code"):
        f = {"grant_type": "authorization_code", "code": "code%d" % slot, "redirect_uri": cl.uris[0], "code_verifier": "v" * 42 + str(slot)}
        if kind == "code-bad-verifier":
            f["code_verifier"] = "v" * 43
        elif kind == "code-bad-uri":
            f["redirect_uri"] = cl.uris[1]
    elif kind.startswith("refresh"):
        f = {"grant_type": "refresh_token", "refresh_token": "refresh%d" % slot}
        if kind == "refresh-narrow":
            f["scope"] = sc[0]
        elif kind == "refresh-wide":
            f["scope"] = " ".join([x for x in SUP if x not in sc][:1] or ["nope"])
    else:
        f = {"grant_type": "client_credentials", "scope": " ".join(sc)}
        if kind == "cc-all":
            del f["scope"]
        elif kind == "cc-bad-scope":
            f["scope"] = "a nope"
    fd, h = O.client_auth(cl, f)
    if kind.endswith("unauth"):
        fd.pop("client_secret", None)
        h = {"Authorization": O.basic(cl.id, "bad")}
    r = O.req(form=fd, headers=h)
    return lambda: p.token(r)


KINDS = ["authorize", "authorize", "authorize-bad-scope", "authorize-bad-uri", "authorize-no-user", "consent", "code", "code", "code-bad-verifier", "code-bad-uri", "code-unauth", "refresh", "refresh", "refresh-narrow", "refresh-wide",
         "refresh-unauth", "cc", "cc-all", "cc-bad-scope", "cc-unauth", "revoke", "revoke-unauth"]


def norm_value(s, v):
    """Replace issued values by what they stand for."""
    if isinstance(v, str):
        if v in s.access and v.startswith("AT-"):
            a = s.access[v]
            return ("AT", a[0], a[1], tuple(sorted(a[2] or [])))
        if v in s.refresh and v.startswith("RT-"):
            t = s.refresh[v]
            return ("RT", t.client_id, t.user_id, tuple(sorted(t.scopes)))
        if v in s.codes and not v.startswith("code"):
            d = dict(vars(s.codes[v]))
            d["scopes"] = sorted(d["scopes"])
            return ("CODE", sorted(map(repr, d.items())))
    return v


def norm_reply(s, st, rep):
    if st == "err":
        return ("raised", type(rep).__name__, str(rep))
    if st != "ok":
        return (st,)
    if isinstance(rep, dict):
        return ("consent", rep["client"].id, sorted(map(str, rep["scopes"])))
    head = tuple(sorted((k, v) for k, v in rep.headers.items() if k != "location"))
    if rep.location is not None:
        return (rep.status, head, rep.base(), tuple((k, norm_value(s, v)) for k, v in rep.params()))
    try:
        j = rep.json
    except ValueError:
        return (rep.status, head, rep.body)
    if isinstance(j, dict):
        out = {}
        for k, v in j.items():
            if k == "scope":
                v = sorted(v.split())
            elif k == "id_token":
                got = R.verify_token(v.encode(), KEY[1])
                if got is None:
                    v = "UNVERIFIABLE"
                else:
                    claims = json.loads(got[1])
                    claims["at_hash"] = claims.get("at_hash") == R.half_hash(j.get("access_token", ""), "HS256")
                    claims.pop("iat", None), claims.pop("exp", None)
                    v = (got[0], claims)
            out[k] = norm_value(s, v)
        j = sorted((k, repr(v)) for k, v in out.items())
    return (rep.status, head, repr(j))


def norm_events(s, tag):
    out = []
    for e in s.log:
        if e.tag == tag:
            args = []
            for i, a in enumerate(e.args):
                if e.name == "save_authorization_code" and i == 0:
                    a = "<code>"
                elif isinstance(a, dict):
                    a = sorted((k, sorted(v) if isinstance(v, list) else v) for k, v in a.items())
                elif isinstance(a, list):
                    a = sorted(map(str, a))
                args.append(norm_value(s, a) if isinstance(a, str) else a)
            out.append(repr((e.name, args)))
    return sorted(out)


KEY = None
_alone = {}


PRISTINE = None


def compute(job, slot):
    s, p = world()
    prepare(job, slot, s)
    run = sched.Run(s)
    run.go([("J%d" % slot, launch(job, slot, s, p))], lambda n, i, t: 0)
    st, rep = run.results["J%d" % slot]
    return norm_reply(s, st, rep), norm_events(s, "J%d" % slot)


def alone(c, job, slot):
    k = (job[0], job[1], job[2], tuple(job[3]), slot)
    if k not in _alone:
        out = PRISTINE(job, slot)
        if out is None or out[0] != "ok":
            raise core.Inconclusive("the request alone could not be observed: %r" % (out,))
        _alone[k] = out[1]
        c.count("alone-in-fresh-process")
    return _alone[k]


def execute(c, jobs, choose, phases=("enter",)):
    s, p = world()
    for slot, j in enumerate(jobs):
        prepare(j, slot, s)
    run = sched.Run(s, phases)
    try:
        choices = run.go([run.job("J%d" % slot, launch(j, slot, s, p)) for slot, j in enumerate(jobs)], choose)
    except sched.Stuck:
        c.fail("concurrent requests never end", jobs=jobs, trace=run.trace)
        return []
    h = hashlib.blake2b(repr((jobs, run.trace)).encode(), digest_size=8).hexdigest()
    c.case("schedule:%d" % len(jobs), h, sample=(jobs, run.trace[:20]))
    c.count("storage-events", len(s.log))
    for slot, j in enumerate(jobs):
        want = alone(c, j, slot)
        tag = "J%d" % slot
        st, rep = run.results[tag]
        got = (norm_reply(s, st, rep), norm_events(s, tag))
        c.count("responses-compared")
        if got[0][0] == 200:
            c.count("ok:" + j[0])
        c.check(got[0] == want[0], "a request got another response than it would have got alone", job=j, got=got[0], alone=want[0], jobs=jobs, trace=run.trace)
        c.check(got[1] == want[1], "storage operations of a request were not those it performs alone", job=j, got=got[1], alone=want[1], jobs=jobs, trace=run.trace)
    stray = [e for e in s.log if e.tag is None]
    c.check(not stray, "storage operations outside any request", stray=stray, jobs=jobs)
    return choices


def run(c):
    global KEY, PRISTINE
    rng = c.sub_rng("main")
    k = keys.seeded_oct(rng, 48)
    KEY = (jwk(k, kid="k"), k)
    PRISTINE = Pristine(compute)
    try:
        explore(c, rng)
    finally:
        PRISTINE.close()


def explore(c, rng):

    def job(kind=None, same=None):
        kind = kind or rng.choice(KINDS)
        i = same[0] if same else rng.randrange(N)
        if kind.startswith("refresh") and i == 3 or kind in ("cc", "cc-all", "cc-bad-scope") and i == 2:
            i = 0
        u = same[1] if same else rng.randrange(N)
        sc = rng.sample(["openid", "a", "b"], rng.randint(1, 3))
        return (kind, i, u, tuple(sc))

    # pairs: enumerated
    pairs = list(itertools.combinations_with_replacement(dict.fromkeys(KINDS), 2))
    rng.shuffle(pairs)
    for a, b in pairs:
        ja, jb = job(a), job(b)
        if ja[1:3] == jb[1:3]:
            jb = (jb[0], (ja[1] + 1) % 2, (ja[2] + 1) % N, jb[3])
        n, done = sched.enumerate_all(lambda ch: execute(c, [ja, jb], ch), c.n(40, 4000))
        c.count("pairs-complete" if done else "pairs-cut")
        for _ in range(c.n(4, 60)):
            execute(c, [ja, jb], sched.pct(rng), ("enter", "exit"))
    # the success paths against each other, deeper
    deep = ["authorize", "code", "refresh", "cc-all", "revoke", "refresh-narrow"]
    for a, b in itertools.combinations_with_replacement(deep, 2):
        ja, jb = job(a, (0, 0)), job(b, (1, 1))
        sched.enumerate_all(lambda ch: execute(c, [ja, jb], ch), c.n(120, 8000))
    # larger sets, also with the same client or user everywhere
    pool = [job() for _ in range(c.n(90, 1000))]
    for i in range(c.n(900, 30000)):
        r = rng.random()
        same = (rng.choice([0, 1]), rng.randrange(2)) if r < 0.25 else None
        some = [j for j in pool if j[1] == same[0]] if same else pool
        jobs = [rng.choice(some) for _ in range(rng.randint(2, 8))]
        execute(c, jobs, sched.pct(rng, horizon=60) if i % 2 else (lambda n, i, t: rng.randrange(n)), rng.choice([("enter",), ("exit",), ("enter", "exit")]))
    # crowds: far more requests at once than any of the sets above
    for i in range(c.n(14, 200)):
        kinds = rng.choice([["code"], ["code"], ["refresh", "code"], ["authorize"], ["refresh"], KINDS])
        some = [job(rng.choice(kinds)) for _ in range(6)]
        jobs = [rng.choice(some) for _ in range(rng.choice([12, 20, 40, 40, 80, 150]))]
        # most orders let all of them start before the first one goes on
        slow = sched.pct(rng, horizon=400)
        execute(c, jobs, [lambda n, i, t: 0, lambda n, i, t: rng.randrange(n), slow][i % 3], ("enter",))
        c.count("crowds")
    c.require("responses-compared", 5000)
    for k in ("code", "refresh", "cc", "refresh-narrow", "revoke"):
        c.require("ok:" + k, 50)
