"""C21: every request gets a well-formed response; token responses are uncacheable."""
import base64
import json

from vf import authz as A
from vf import gen, keys
from vf import oauth as O
from vf.psi import jwk

SCALE = 3
RULE = ("Byte-level fuzzing of the three endpoints and the consent data: mutated valid requests of every kind (parameters dropped, blanked, repeated, swapped, replaced by hostile text, oversized, undecodable, split over URL "
        "and body), random bodies, malformed Authorization headers, on providers with and without OpenID Connect and with various lifetimes, interleaved on one long-lived provider. No call may raise, and each response "
        "is checked by an independent well-formedness monitor (status, JSON, cache headers, members, error code, Location alphabet). A case is one byte-level request; reached outcomes are counted per endpoint.")

URI = "https://c.example/cb?x=1"
SUPPORTED = ["openid", "profile", "a"]
G = ["authorization_code", "refresh_token", "client_credentials"]
PARAMS = ["grant_type", "client_id", "client_secret", "code", "redirect_uri", "code_verifier", "refresh_token", "scope", "response_type", "state", "code_challenge", "code_challenge_method", "nonce", "token",
          "token_type_hint", "response_mode", "prompt", "request", "x"]
HOSTILE = ["", " ", "\0", "\n", "é", "\ufffd", "\U0001f600", "a" * 10000, "%", "%00", "&", "=", "[]", "{}", "null", "None", "true", "0", "-1", "'", "\"", "\\", "../..", "{0}", "%s", "${x}", "<x>", "\r\nX: y", "c b p n",
           "code", "token", "openid", "S256", "plain", "Bearer", "\u2028", "\ud7ff", "1e999", "NaN", "\x7f", "*", "self", "__class__", "description", "error", "url", "k" * 129, "error_url", "data"]


class World:
    def __init__(self, c, rng, name, oidc, lifespan):
        self.c, self.rng, self.lifespan, self.oidc = c, rng, lifespan, oidc
        self.s = O.Store(name)
        self.user = self.s.add(O.User("u"))
        self.err = rng.choice(["https://op.example/error", "https://op.example/error?x=y", "/oauth/error"])
        self.k = 0
        self.s.keyinfo = {"key": KEY[0], "alg": KEY[1]}
        self.p = O.provider(self.s, SUPPORTED, oidc=oidc, error_url=self.err, token_lifespan=lifespan)
        for i, m in (("b", "client_secret_basic"), ("p", "client_secret_post"), ("n", "none")):
            self.s.add(O.Client(i, None if m == "none" else "sec", m, SUPPORTED, [URI], G))

    def valid(self):
        """(endpoint, pairs, headers): a valid request of some kind."""
        rng, s = self.rng, self.s
        self.k += 1
        cl = rng.choice(list(s.clients.values()))
        kind = rng.choice(["authorize", "consent", "code", "refresh", "cc", "revoke"])
        h = {}
        if kind in ("authorize", "consent"):
            d = {"response_type": "code", "client_id": cl.id, "redirect_uri": URI, "scope": rng.choice(["openid", "openid profile", "a"]), "state": rng.choice(["s", "é &=%"]),
                 "code_challenge": "v" * 43, "code_challenge_method": rng.choice(["plain", "S256"]), "nonce": "n"}
        else:
            if kind == "code":
                d = {"grant_type": "authorization_code", "code": s.put_code("k%d" % self.k, cl, self.user, URI, rng.choice([["openid"], ["a"], []]), "v" * 43, nonce=rng.choice([None, "n"])), "redirect_uri": URI, "code_verifier": "v" * 43}
            elif kind == "refresh":
                d = {"grant_type": "refresh_token", "refresh_token": s.put_refresh("r%d" % self.k, cl, self.user, rng.choice([["openid", "a"], [], ["a"]]))}
                if rng.random() < 0.5:
                    d["scope"] = "a"
            elif kind == "cc":
                d = {"grant_type": "client_credentials"}
                if rng.random() < 0.5:
                    d["scope"] = "a openid"
            else:
                d = {"token": "r%d" % (self.k - 1), "token_type_hint": rng.choice(["access_token", "refresh_token"])}
            d, h = O.client_auth(cl, d)
        return kind, list(d.items()), h

    def mutate(self, pairs, h):
        rng = self.rng
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 6])):
            if not pairs:
                pairs.append((rng.choice(PARAMS), rng.choice(HOSTILE)))
            i = rng.randrange(len(pairs))
            r = rng.random()
            if r < 0.2:
                del pairs[i]
            elif r < 0.5:
                pairs[i] = (pairs[i][0], rng.choice(HOSTILE + [gen.uni_text(rng, 1, 50), gen.text(rng, 1, 20)]))
            elif r < 0.6:
                pairs.append((pairs[i][0], rng.choice(HOSTILE)))
            elif r < 0.7:
                pairs[i] = (pairs[i][0], (pairs[i][1] if isinstance(pairs[i][1], bytes) else pairs[i][1].encode()) + rng.choice([b"\xff", b"\xc3", b"\xed\xa0\x80", b"\0", b" "]))
            elif r < 0.8:
                pairs.append((rng.choice(PARAMS), rng.choice(HOSTILE)))
            elif r < 0.9:
                h["Authorization"] = self.header()
            else:
                j = rng.randrange(len(pairs))
                pairs[i], pairs[j] = (pairs[i][0], pairs[j][1]), (pairs[j][0], pairs[i][1])
        return pairs, h

    def header(self):
        rng = self.rng
        b64 = lambda b: base64.b64encode(b).decode()
        return rng.choice(["", " ", "Basic", "Basic ", "basic", "Bearer", "Basic " + b64(b"b:sec"), "Basic " + b64(b"b"), "Basic " + b64(b":"), "Basic " + b64(b"b:"), "Basic " + b64(b":sec"), "Basic " + b64(b"\xff\xfe:x"),
                           "Basic !!!", "Basic " + b64(b"b:sec")[:-1], "Basic " + b64(b"b:sec") + "=", "Basic =", "Basic a", "Basic é", "é", "Basic \ud7ff", "Digest x=y", "Basic " + b64(b"b:sec") + " extra",
                           "Basic  " + b64(b"b:sec"), "Basic\t" + b64(b"b:sec"), "Basic " + b64(b"\0:\0"), "Basic " + b64(("é:ü").encode()), "Basic " + b64(b"b:s:e:c"), "Basic " + "A" * 10000, "Negotiate", "Basic,x",
                           "Basic " + b64(gen.rbytes(rng, rng.randrange(0, 40))), gen.text(rng, 0, 30)])

    def send(self, kind, request, desc):
        c = self.c
        detail = dict(endpoint=kind, request=desc)
        ep = {"authorize": self.p.authorize, "consent": self.p.authorize.get_consent_data, "revoke": self.p.revoke}.get(kind, self.p.token)
        try:
            raw = O.run(ep(request()))
        except Exception as exc:
            c.fail("the %s endpoint raised %r" % (kind, exc), **detail)
            return
        c.case(kind, desc, sample=desc)
        if isinstance(raw, dict):
            c.count("reached:consent-data")
            c.check(kind == "consent", "not a response", got=raw, **detail)
            return
        rep = O.Reply(raw)
        detail["reply"] = rep
        c.check(isinstance(rep.status, int) and isinstance(rep.body, bytes) and all(isinstance(k, str) and isinstance(v, str) for k, v in rep.headers.items()), "the response is malformed", **detail)
        if not all(isinstance(v, str) for v in rep.headers.values()):
            return
        for k, v in rep.headers.items():
            c.check("\r" not in k + v and "\n" not in k + v and all(ord(x) < 128 for x in k + v), "a response header is not plain ASCII on one line", **detail)
        if kind in ("authorize", "consent"):
            c.check(rep.status in (302, 303) and rep.location and set(rep.location) <= A.ASCII_OK, "an authorization response is not a redirect (302 or 303) with a plain ASCII Location", **detail)
            loc = rep.location or ""
            c.count("reached:%s:%s" % (kind, "code" if "code=" in loc and "error=" not in loc else dict(rep.params()).get("error") if rep.location else None))
            return
        try:
            j = json.loads(rep.body.decode("utf-8"))
        except ValueError:
            c.fail("the response body is not JSON", **detail)
            return
        c.check(rep.headers.get("content-type", "").split(";")[0].strip() == "application/json", "the content type is not JSON", **detail)
        if kind != "revoke":
            cc = [x.strip().lower() for x in rep.headers.get("cache-control", "").split(",")]
            c.check("no-store" in cc and rep.headers.get("pragma", "").lower() == "no-cache", "a token response is cacheable", **detail)
        if rep.status == 200:
            c.count("reached:%s:200" % kind)
            if kind != "revoke":
                ok = isinstance(j, dict) and isinstance(j.get("access_token"), str) and j["access_token"] and j.get("token_type") == "Bearer" and j.get("expires_in") == self.lifespan and "error" not in j
                c.check(ok, "a successful token response lacks access_token, token_type Bearer or the configured expires_in", **detail)
                c.check(j.get("access_token") in self.s.access, "the access token is not one the storage created", **detail)
        else:
            err = j.get("error") if isinstance(j, dict) else None
            c.count("reached:%s:%s" % (kind, err))
            c.check(rep.status in (400, 401) and err in O.OAUTH_ERRORS and "access_token" not in j, "a refusal is not status 400 or 401 with a registered error code", **detail)


KEY = None


def run(c):
    global KEY
    rng = c.sub_rng("main")
    k = keys.seeded_oct(rng)
    KEY = (jwk(k, kid="k1"), "HS256")
    for wi in range(c.n(6, 30)):
        w = World(c, rng, "w%d" % wi, bool(wi % 2), [3600, 0, 1, 60, 10 ** 9, 7][wi % 6])
        for i in range(c.n(2500, 15000)):
            if i % 500 == 0:
                w.s.codes.clear(); w.s.refresh.clear(); w.s.access.clear(); del w.s.log[:]; del w.s.revoked[:]
            r = rng.random()
            if r < 0.9:
                kind, pairs, h = w.valid()
                if rng.random() < 0.05:
                    kind = rng.choice(["authorize", "consent", "code", "revoke"])
                pairs, h = w.mutate(pairs, h)
                rng.shuffle(pairs)
                body_only = rng.random()
                style = rng.choice(["qp", "pct", "low", "all", "raw"])
                if kind in ("authorize", "consent"):
                    q, f = (pairs, None) if body_only < 0.6 else (None, pairs) if body_only < 0.8 else (pairs[:3], pairs[3:])
                else:
                    q, f = (None, pairs) if body_only < 0.85 else (pairs, None) if body_only < 0.9 else (pairs[:2], pairs[2:])
                raw = None
                if f is not None and rng.random() < 0.1:
                    raw = O.encode(f, style).encode()
                    pos = rng.randrange(len(raw) + 1)
                    raw = raw[:pos] + rng.choice([b"\xff", b"\x80\x81", b"&&", b"=", b"%", b"%f", b";", b"\0", b"&=&", b"\xc3\xa9", b"\r\n", gen.rbytes(rng, 4)]) + raw[pos:]
                user = rng.choice([w.user, w.user, w.user, None])
                hh = dict(h)
                if rng.random() < 0.2:
                    hh.update({"content-type": rng.choice(["application/json", "text/plain", "multipart/form-data; boundary=x", ""]), "X-Y": "z", "accept": "*/*"})
                method = rng.choice(["GET", "POST", "post", "get"]) if rng.random() < 0.1 else None
                desc = (kind, q, f, raw, sorted(hh.items()), user is None, style, method)
                w.send(kind, lambda: O.req(query=q, form=f, headers=hh, user=user, style=style, raw_body=raw, method=method), desc)
            else:
                kind = rng.choice(["authorize", "consent", "code", "revoke"])
                raw = rng.choice([gen.rbytes(rng, rng.randrange(0, 200)), b"", json.dumps({"grant_type": "client_credentials"}).encode(), b"&".join(rng.choice(PARAMS).encode() + b"=" + gen.rbytes(rng, 5) for _ in range(6)),
                                  b"grant_type=client_credentials&" * 500, b"=&=&=", b"a" * 50000, None])
                hh = {"Authorization": w.header()} if rng.random() < 0.5 else {}
                user = rng.choice([w.user, None])
                from psion.oauth2.models import Request
                q = rng.choice(["", "?", "?&", "?=", "?a", "?%", "?client_id", "?%FF=%FF", "?x=%C3", "?" + "".join(rng.choice("abc=&%+;?/") for _ in range(30)), "#frag", "?a=b#c=d"])
                w.send(kind, lambda: Request(method="POST" if raw else "GET", url="https://op.example/x" + q, headers=hh, body=raw, user=user), (kind, raw, q, sorted(hh.items()), user is None))
    for k in ("authorize:code", "code:200", "refresh:200", "cc:200", "revoke:200", "consent-data", "authorize:invalid_scope", "authorize:access_denied", "code:invalid_grant", "code:invalid_client", "revoke:invalid_client",
              "cc:invalid_scope", "refresh:invalid_client", "code:invalid_request", "revoke:unsupported_token_type"):
        c.require("reached:" + k, 5)
