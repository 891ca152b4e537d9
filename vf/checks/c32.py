"""C32: keys, key sets, tokens and helpers shared by several threads; providers served by different threads."""
import asyncio
import base64
import hashlib
import json
import threading
import warnings

from vf import gen, keys, refjose as R
from vf import oauth as O
from vf.psi import JoseError, JsonWebKey, JsonWebKeySet, JsonWebSignature, JsonWebToken, JsonWebTokenClaims, jwk
from vf.turns import Turns, preempt, steps
from psion import webtools as W

RULE = ("Two to four threads work on the same key objects, key set and option dictionaries (signing, verifying good and altered tokens, decoding JWTs against options, dumping, exporting, parsing and looking up keys, the encoding helpers), "
        "each also serving a provider of its own. They run one at a time and the turn changes at random lines or bytecodes of the library's own code. Each result is compared with what the operation gives alone, or judged by the reference "
        "implementation. A case is one operation in one schedule; schedules are told apart by the lines at which the turn changed.")

URI = "https://client.example/cb"
KINDS = ["sign", "verify", "forged", "wrong-key", "wrong-alg", "jwt", "jwt-unmet", "jwt-build", "dump", "dump-private", "export", "export-public",
         "load", "parse", "lookup", "lookup-none", "set-dump", "bad-key", "helpers", "hash", "query", "auth-header", "malformed"]


class Shared:
    """Objects all threads use."""

    def __init__(self, rng, algs):
        self.rng = rng
        self.keys = []
        for i, alg in enumerate(algs):
            k = keys.key_for(alg, rng)
            extra = {"kid": "kid%d" % i}
            if rng.random() < 0.4:
                extra["alg"] = alg
            if rng.random() < 0.3:
                extra["use"] = "sig"
            self.keys.append((alg, k, JsonWebKey(k.jwk(True, **extra)), JsonWebKey(k.jwk(k.kty == "oct", **extra)), extra))
        self.set = JsonWebKeySet([x[2] for x in self.keys])
        self.options = {"aud": {"essential": True, "values": ["a1", "a2", "a3"]}, "sub": {"essential": True}, "n": {"value": 7}}
        self.header = {"typ": "JWT"}

    def operation(self, kind=None, key=None):
        """(kind, function, judge(status, result) -> None or what is wrong)"""
        rng = self.rng
        alg, k, priv, pub, extra = self.keys[key] if key is not None else rng.choice(self.keys)
        kind = kind or rng.choice(KINDS + ["sign", "verify"])
        payload = gen.rbytes(rng, rng.randrange(0, 60))
        header = {"alg": alg, "kid": extra["kid"], "x": rng.getrandbits(32)}

        def equal(want):
            return lambda st, r: None if st == "ok" and r == want else "%r instead of %r" % (r, want)

        def refused(st, r):
            return None if st == "err" and isinstance(r, JoseError) else "not refused with a JOSE error: %r" % (r,)

        if kind == "sign":
            def judge(st, r):
                if st != "ok":
                    return repr(r)
                got = R.verify_token(r, k)
                return None if got == (header, payload) else "verified, the token is %r instead of %r" % (got, (header, payload))
            return kind, lambda: JsonWebSignature(payload, header).serialize(priv), judge
        if kind in ("verify", "forged", "wrong-key", "wrong-alg"):
            tok = R.sign_token(header, payload, k, alg)
            if kind == "verify":
                def judge(st, r):
                    return None if st == "ok" and r.payload == payload and dict(r.header) == header else "a good token gave %r" % (r,)
                jk = rng.choice([priv, pub])
                return kind, lambda: JsonWebSignature.deserialize(tok, jk), judge
            if kind == "forged":
                h, p, s = tok.split(b".")
                sb = bytearray(R.b64d(s))
                sb[rng.randrange(len(sb))] ^= 1 << rng.randrange(8)
                bad = rng.choice([b".".join([h, R.b64e(payload + b"!"), s]), b".".join([h, p, R.b64e(bytes(sb))])])
                return kind, lambda: JsonWebSignature.deserialize(bad, pub), refused
            if kind == "wrong-alg":
                other = rng.choice([a for a in ("HS256", "RS256", "ES256", "PS384", "none") if a != alg])
                return kind, lambda: JsonWebSignature.deserialize(tok, pub, other), refused
            other = rng.choice([x for x in self.keys if x[2] is not priv])[3]
            return kind, lambda: JsonWebSignature.deserialize(tok, other), refused
        if kind in ("jwt", "jwt-unmet"):
            claims = {"aud": rng.choice(["a1", "a2", ["z", "a3"]]), "sub": gen.text(rng, 1, 8), "n": 7, "x": rng.getrandbits(20)}
            if kind == "jwt-unmet":
                claims[rng.choice(["aud", "n"])] = "no"
            tok = R.sign_token(header, R.jdump(claims), k, alg)
            if kind == "jwt-unmet":
                return kind, lambda: JsonWebToken.decode(tok, pub, alg, options=self.options), refused
            return kind, lambda: JsonWebToken.decode(tok, pub, alg, options=self.options), lambda st, r: None if st == "ok" and dict(r.claims) == claims and dict(r.header) == header else "a good token gave %r" % (r,)
        if kind == "jwt-build":
            claims = {"sub": gen.text(rng, 1, 8), "x": rng.getrandbits(20)}

            def judge(st, r):
                if st != "ok":
                    return repr(r)
                got = R.verify_token(r.encode(), k)
                return None if got is not None and (got[0], json.loads(got[1])) == (header, claims) else "verified, the token is %r instead of %r" % (got, (header, claims))
            return kind, lambda: JsonWebToken(JsonWebTokenClaims(claims), header).encode(priv), judge
        if kind == "dump":
            return kind, lambda: dict(priv.dump()), equal(dict(k.jwk(k.kty == "oct"), **extra))
        if kind == "dump-private":
            return kind, lambda: dict(priv.dump(False)), equal(dict(k.jwk(True), **extra))
        if kind in ("export", "export-public"):
            public = kind == "export-public"
            if k.kty == "oct":
                return kind, lambda: priv.export(False), lambda st, r: None if st == "ok" and base64.b64decode(r) == k.p["k"] else "the exported secret is %r" % (r,)
            names = ("x", "y") if k.kty == "EC" else ("n", "e")

            def judge(st, r):
                if st != "ok":
                    return repr(r)
                n = keys.numbers_from_pem(r)
                if any(n.get(a) != k.p[a] for a in names) or (("d" in n) == public) or (not public and n["d"] != k.p["d"]):
                    return "the exported key is another one: %r" % (n,)
            return kind, lambda: priv.export(public), judge
        if kind == "load":
            data = k.jwk(True, **extra)
            return kind, lambda: dict(JsonWebKey(data).dump(False)), equal(dict(k.jwk(True), **extra))
        if kind == "parse":
            if k.kty == "oct":
                data = base64.b64encode(k.p["k"])
                return kind, lambda: dict(JsonWebKey.parse(data, "oct", False).dump(False)), equal(dict(k.jwk(True)))
            data = keys.pem(k)
            return kind, lambda: dict(JsonWebKey.parse(data, k.kty, False).dump(False)), equal(dict(k.jwk(True)))
        if kind == "lookup":
            return kind, lambda: self.set.get_key(extra["kid"]), lambda st, r: None if st == "ok" and r is not None and dict(r.dump(False)) == dict(k.jwk(True), **extra) else "looking up %r gave %r" % (extra["kid"], r)
        if kind == "lookup-none":
            name = rng.choice(gen.near_misses(extra["kid"]))
            if name in {x[4]["kid"] for x in self.keys}:
                name = "nothing"
            return kind, lambda: self.set.get_key(name), equal(None)
        if kind == "set-dump":
            return kind, lambda: json.loads(json.dumps(self.set.dump())), equal({"keys": [dict(x[1].jwk(x[1].kty == "oct"), **x[4]) for x in self.keys]})
        if kind == "bad-key":
            data = dict(k.jwk(True, **extra), kty=rng.choice(["XX", "rsa", ""]))
            return kind, lambda: JsonWebKey(data), lambda st, r: None if st == "err" else "not refused: %r" % (r,)
        if kind == "helpers":
            n = rng.getrandbits(rng.randrange(1, 600))
            v = gen.json_value(rng, 3)
            return kind, lambda: (W.b64_to_int(W.int_to_b64(n)), W.base64url_decode(W.base64url_encode(payload)), W.json_loads(W.json_dumps({"v": v}))), equal((n, payload, {"v": v}))
        if kind == "hash":
            t, b = gen.text(rng, 1, 60), rng.choice(["256", "384", "512"])
            h = getattr(hashlib, "sha" + b)(t.encode()).digest()
            return kind, lambda: W.create_half_hash(t, "RS" + b), equal(R.b64e(h[:len(h) // 2]).decode())
        if kind == "query":
            p = {"code": gen.text(rng, 1, 20), "state": gen.uni_text(rng, 1, 10)}
            return kind, lambda: W.urldecode(W.urlencode(URI, **p).split("?", 1)[1]), equal(p)
        if kind == "auth-header":
            a, b = gen.text(rng, 1, 8).replace(":", ""), gen.text(rng, 0, 20)
            return kind, lambda: tuple(W.get_basic_authorization({"authorization": O.basic(a, b)})), equal((a, b))
        tok = gen.rbytes(rng, 20) + b"." + gen.rbytes(rng, 5)     # (kind "malformed")
        return "malformed", lambda: JsonWebSignature.deserialize(tok, pub), refused


_tls = threading.local()


def drive(coro):
    """On an event loop of this thread."""
    loop = getattr(_tls, "loop", None)
    if loop is None:
        loop = _tls.loop = asyncio.new_event_loop()
    return loop.run_until_complete(coro)


def close():
    loop = getattr(_tls, "loop", None)
    if loop is not None:
        loop.close()
        _tls.loop = None


class Site:
    """A provider of one thread, told apart from the others by everything in it."""

    def __init__(self, rng, i):
        self.rng, self.i = rng, i
        self.scopes = ["openid", "s%d" % i, "common"]
        s = self.s = O.Store("site%d" % i)
        self.user = s.add(O.User("user%d" % i))
        m = rng.choice(["client_secret_basic", "client_secret_post", "none"])
        self.client = s.add(O.Client("client", None if m == "none" else "secret%d" % i, m, self.scopes, [URI], ["authorization_code", "refresh_token", "client_credentials"]))
        self.key = keys.seeded_oct(rng, 32)
        s.keyinfo = {"key": jwk(self.key, kid="k%d" % i), "alg": "HS256"}
        s.userinfo = lambda user, scopes: {"sub": user.id, "site": i}
        self.iss = "https://op%d.example" % i
        self.p = O.provider(s, self.scopes, issuer=self.iss, oidc=True)
        self.n = 0

    def operation(self):
        rng, s, cl = self.rng, self.s, self.client
        self.n += 1
        kind = rng.choice(["redeem", "redeem", "redeem-wrong", "authorize", "authorize-bad", "refresh", "unknown-client", "revoke"])

        if kind in ("redeem", "redeem-wrong"):
            v, nonce, code = O.verifier(rng), gen.text(rng, 1, 10), "code-%d-%d" % (self.i, self.n)
            s.put_code(code, cl, self.user, URI, ["openid", "s%d" % self.i], v, nonce=nonce)
            f = {"grant_type": "authorization_code", "code": code, "redirect_uri": URI, "code_verifier": v if kind == "redeem" else v[1:] + "~"}
            if kind == "redeem-wrong" and f["code_verifier"] == v:
                f["code_verifier"] = "x" + v[1:] if v[0] != "x" else "y" + v[1:]
            r = O.token_req(cl, f)

            def judge(st, rep):
                if st != "ok":
                    return repr(rep)
                rep = O.Reply(rep)
                if kind == "redeem-wrong":
                    return None if rep.status == 400 and rep.error == "invalid_grant" else "a wrong verifier gave %r" % rep
                if not rep.is_token:
                    return "a good request gave %r" % rep
                got = R.verify_token(str(rep.json.get("id_token")).encode(), self.key)
                if got is None:
                    return "no verifiable ID Token: %r" % rep
                p = json.loads(got[1])
                want = {"iss": self.iss, "aud": "client", "sub": self.user.id, "site": self.i, "nonce": nonce, "at_hash": R.half_hash(rep.json["access_token"], "HS256")}
                got = {a: p.get(a) for a in want}
                if got["aud"] == ["client"]:
                    got["aud"] = "client"
                return None if got == want else "ID Token %r instead of %r" % (got, want)
            return "site-" + kind, lambda: drive(self.p.token(r)), judge
        if kind in ("authorize", "authorize-bad"):
            state = gen.uni_text(rng, 1, 10)
            r = O.req(query={"response_type": "code", "client_id": "client", "redirect_uri": URI, "scope": "s%d" % (self.i if kind == "authorize" else self.i + 1), "state": state,
                             "code_challenge": O.verifier(rng), "code_challenge_method": "plain"}, user=self.user)

            def judge(st, rep):
                if st != "ok":
                    return repr(rep)
                rep = O.Reply(rep)
                p = dict(rep.params())
                if rep.base() != URI or p.get("state") != state:
                    return "the redirect is %r" % rep
                if kind == "authorize":
                    code = s.codes.get(p.get("code"))
                    return None if code is not None and code.user_id == self.user.id and list(code.scopes) == ["s%d" % self.i] else "the code stored is %r, the reply %r" % (code, rep)
                return None if p.get("error") == "invalid_scope" else "a scope of another provider gave %r" % rep
            return "site-" + kind, lambda: drive(self.p.authorize(r)), judge
        if kind == "refresh":
            t = "rt-%d-%d" % (self.i, self.n)
            s.put_refresh(t, cl, self.user, ["s%d" % self.i, "common"])
            r = O.token_req(cl, {"grant_type": "refresh_token", "refresh_token": t})

            def judge(st, rep):
                if st != "ok":
                    return repr(rep)
                rep = O.Reply(rep)
                if cl.method == "none" and not rep.is_token:
                    return None if rep.error == "invalid_client" else "refused with %r" % rep
                return None if rep.is_token else "a good request gave %r" % rep
            return "site-refresh", lambda: drive(self.p.token(r)), judge
        if kind == "unknown-client":
            # (as Basic credentials: one challenge, one status, whatever the method of the client here)
            r = O.req(form={"grant_type": "client_credentials"}, headers={"Authorization": O.basic("client", "secret%d" % (self.i + 1))})
            return "site-unknown", lambda: drive(self.p.token(r)), lambda st, rep: None if st == "ok" and O.Reply(rep).status in (400, 401) and O.Reply(rep).error == "invalid_client" else "another site's secret gave %r" % (O.Reply(rep) if st == "ok" else rep,)
        f, h = O.client_auth(cl, {"token": "t-%d-%d" % (self.i, self.n)})
        r = O.req(form=f, headers=h)
        return "site-revoke", lambda: drive(self.p.revoke(r)), lambda st, rep: None if st == "ok" and O.Reply(rep).status == 200 else "revocation gave %r" % (rep,)


def pairs(c):
    """One preemption, anywhere: operation a is interrupted at one of its lines by the whole of operation b, in another thread."""
    rng = c.sub_rng("pairs")
    for alg in (["HS256", "ES256", "RS256", "PS512"] if not c.thorough else ["HS256", "ES256", "ES512", "RS256", "PS512"]):
        shared = Shared(rng, [alg, "HS384"])
        todo = [(a, b) for a in KINDS for b in KINDS]
        if not c.thorough:
            todo = [(a, a) for a in KINDS] + rng.sample(todo, 60)
        for a, b in todo:
            # on the same key, or a on this and b on the other
            one, two = shared.operation(a, 0), shared.operation(b, rng.choice([0, 0, 1]))
            where = steps(one[1])
            if not c.thorough and a != b:
                where = rng.sample(where, min(len(where), 12))
            for k in where:
                ra, rb, reached = preempt(one[1], two[1], k)
                c.case("preempted", (alg, a, b, k) if reached else None, sample="%s interrupted at step %d by %s" % (a, k, b))
                wrong = one[2](*ra) or (two[2](*rb) if reached else None)
                if not c.check(wrong is None, "%s, interrupted by %s in another thread, gives another result than alone (or the other does)" % (a, b), alg=alg, wrong=wrong, step=k):
                    break


def run(c):
    warnings.simplefilter("ignore")
    pairs(c)
    schedules = set()
    rounds = c.n(200, 1200)
    for rnd in range(rounds):
        rng = c.sub_rng("round", rnd)
        fast = ["HS256", "HS384", "ES256", "RS256"]
        algs = rng.sample(["HS256", "HS512", "ES256", "ES384", "ES512", "RS256", "PS256"], 3) if rnd % 4 == 0 else rng.sample(fast, 2)
        if len({a[:2] for a in algs}) == 1 and algs[0][:2] in ("RS", "PS"):
            algs.append("HS256")
        shared = Shared(rng, algs)
        nt = rng.choice([2, 2, 3, 4])
        sites = [Site(rng, i) for i in range(nt)] if rnd % 3 == 0 else []
        plan = []
        for i in range(nt):
            ops = [sites[i].operation() if sites and rng.random() < 0.6 else shared.operation() for _ in range(rng.randrange(2, 6))]
            plan.append(ops)
        if rng.random() < 0.4:             # the same operation everywhere
            op = plan[0][0]
            if not op[0].startswith("site-"):
                for ops in plan[1:]:
                    ops.insert(0, op)
        turns = Turns(c.sub_rng("turns", rnd), rng.choice([0.02, 0.1, 0.3, 1.0]), opcodes=rng.random() < 0.25)
        # the tracer is per thread, so each thread's loop is closed by an operation of its own
        out = turns.run([[op[1] for op in ops] + [close] for ops in plan])
        if out is None:
            c.count("schedule-abandoned")
            c.fail("threads sharing the library's objects came to no end", plan=[[op[0] for op in ops] for ops in plan])
            return
        c.count("turn-changes", turns.switches)
        c.count("scheduling-points", turns.steps)
        c.count("stalls", turns.stalls)
        schedules.add(hash(tuple(turns.trace)))
        for i, ops in enumerate(plan):
            for (kind, fn, judge), (st, r) in zip(ops, out[i]):
                c.case("op", (kind, rnd, i, len(turns.trace)), sample="%s in a schedule of %d turns" % (kind, turns.switches))
                c.count("op:" + kind)
                wrong = judge(st, r)
                c.check(wrong is None, "with several threads, an operation gives another result than alone (%s)" % kind, wrong=wrong, round=rnd, thread=i,
                        plan=[[op[0] for op in o] for o in plan], turns=turns.trace[:60])
        for i, site in enumerate(sites):
            for e in site.s.log:
                if e.name in ("create_access_token", "create_refresh_token", "save_authorization_code"):
                    c.check("user%d" % i in repr(e.args), "a provider's storage was used for another provider's user", event=repr(e), site=i)
    c.count("distinct-schedules", len(schedules))
    c.require("cases:preempted", 3000)
    c.require("turn-changes", 2000)
    c.require("distinct-schedules", 60)
    for k in ("sign", "verify", "forged", "dump", "site-redeem"):
        c.require("op:" + k, 12)
