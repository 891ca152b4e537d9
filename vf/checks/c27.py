"""C27: the Starlette integration conveys requests and responses unchanged."""
import asyncio
import copy
import json
import types
import urllib.parse as up

from starlette.applications import Starlette
from starlette.authentication import AuthCredentials, AuthenticationBackend, BaseUser, SimpleUser, UnauthenticatedUser
from starlette.middleware import Middleware
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.requests import ClientDisconnect, Request as SRequest
from starlette.routing import Route

from psion.oauth2.models import JSONResponse, RedirectResponse, Request, Response
from psion.oauth2.providers import StarletteProvider

from vf import core, oauth as O

RULE = ("Raw ASGI exchanges against the Starlette provider: (1) the request object the library receives for generated methods, schemes, hosts, root paths, paths, encoded queries, header sets in any case, bodies in any split into chunks and "
        "users is compared with what was sent; (2) generated endpoint responses are compared with the ASGI response messages; (3) whole applications with authentication middleware and routes for all endpoints, run sequentially and concurrently "
        "with interleaved chunks, anonymous and logged-in visitors and disconnects; each exchange is judged from the raw messages, the captured endpoint result and the storage log. A case is one exchange.")

TEXTS = ["a", "value", "a b", "a+b", "a&b=c", "ünï", "日本", "100%", "x/y?z#w", "%41", "a;b", "=", "\U0001f600", "q" * 300, "a\r\nb", "\"'<>", "~!*()", "nul\0l", "A%2BB"]
STYLES = ["qp", "pct", "all", "low"]


class LoggedIn(O.User, BaseUser):
    """The application's user as Starlette's middleware would provide it."""
    @property
    def is_authenticated(self):
        return True

    @property
    def display_name(self):
        return self.id


class Dormant(O.User):
    """An application's own anonymous user."""
    is_authenticated = False


class Guest(O.User, BaseUser):
    """Another one, with a name and an identity."""
    display_name = "Guest"
    identity = "guest"
    username = "guest"

    @property
    def is_authenticated(self):
        return False


def params(rng, n=None):
    out = {}
    for _ in range(rng.randrange(0, 6) if n is None else n):
        out[rng.choice(["state", "scope", "code", "client_id", "k", "ключ", "a b", "x[]", "A"]) + rng.choice(["", "1"])] = rng.choice(TEXTS)
    return out


def chunks(rng, body):
    """Split a body into pieces, some empty."""
    how = rng.randrange(5)
    if how == 0 or not body:
        pieces = [body]
    elif how == 1:
        pieces = [body[i:i + 1] for i in range(min(len(body), 40))] + [body[40:]]
    else:
        cuts = sorted(rng.randrange(len(body) + 1) for _ in range(rng.randint(1, 6)))
        pieces = [body[a:b] for a, b in zip([0] + cuts, cuts + [len(body)])]
    out = [{"type": "http.request", "body": p, "more_body": True} for p in pieces]
    if rng.random() < 0.3:
        out.append({"type": "http.request", "more_body": False})   # body is optional and defaults to empty
    else:
        out[-1] = {"type": "http.request", "body": pieces[-1]} if rng.random() < 0.5 else {"type": "http.request", "body": pieces[-1], "more_body": False}
    return out


class Exchange:
    """One HTTP request as ASGI messages, and what comes back."""

    def __init__(self, rng, method, path, query=None, form=None, headers=(), user=None, set_user=True, raw_body=None, raw_query=None):
        self.rng = rng
        self.scheme = rng.choice(["https", "http"])
        self.host = rng.choice(["op.example", "op.example:8443", "localhost:8000", "[::1]:80", "xn--bcher-kva.example", "Op.Example", "op.example:443", "op.example:80", "127.0.0.1:5000"])
        self.root = rng.choice(["", "", "/mounted"])
        self.method, self.path = method, path
        self.query = dict(query or {})
        self.form = dict(form or {})
        self.raw_query = O.encode(self.query, rng.choice(STYLES)) if raw_query is None else raw_query
        self.body = (O.encode(self.form, rng.choice(STYLES)).encode() if form is not None else b"") if raw_body is None else raw_body
        self.headers = [("host", self.host)] + list(headers)
        if form is not None:
            self.headers.append(("content-type", rng.choice(O.CTYPES)[1]))
        rng.shuffle(self.headers)
        self.user, self.set_user = user, set_user
        self.pending = chunks(rng, self.body)
        self.disconnect_after = None
        self.sent = []
        self.received = 0

    def scope(self):
        s = {"type": "http", "asgi": {"version": "3.0", "spec_version": "2.1"}, "http_version": "1.1", "method": self.method, "scheme": self.scheme, "path": self.path, "raw_path": up.quote(self.path).encode(),
             "root_path": self.root, "query_string": self.raw_query.encode("ascii"), "headers": [(k.lower().encode("latin-1"), v.encode("latin-1")) for k, v in self.headers], "client": ("203.0.113.9", 4711), "server": ("127.0.0.1", 8000)}
        if self.set_user:
            s["user"] = self.user
        return s

    async def receive(self):
        for _ in range(self.rng.randrange(3)):
            await asyncio.sleep(0)
        if self.disconnect_after is not None and self.received >= self.disconnect_after:
            return {"type": "http.disconnect"}
        if not self.pending:
            return {"type": "http.disconnect"}
        self.received += 1
        return self.pending.pop(0)

    async def send(self, message):
        self.sent.append(copy.deepcopy(message))
        if self.rng.random() < 0.3:
            await asyncio.sleep(0)

    # ---- what the client got
    def response(self):
        starts = [m for m in self.sent if m["type"] == "http.response.start"]
        bodies = [m for m in self.sent if m["type"] == "http.response.body"]
        return starts, b"".join(m.get("body", b"") for m in bodies)

    def expected_data(self):
        d = dict(self.query)
        d.update(self.form)
        return {k: v for k, v in d.items() if v != ""}


def judge_request(c, x, r):
    """The library's view of the request is what was sent."""
    detail = dict(method=x.method, path=x.path, query=x.raw_query, body=x.body, headers=x.headers, user=x.user)
    lacking = [n for n in ("method", "url", "path", "query", "headers", "form", "data", "user") if not hasattr(r, n)]
    if not c.check(not lacking, "the request lacks what endpoints read", got=r, lacking=lacking, **detail):
        return
    c.check(r.method == x.method, "the library sees another method", got=r.method, **detail)
    u = up.urlsplit(r.url)
    c.check(u.scheme == x.scheme and u.netloc == x.host, "the library sees another origin", got=r.url, **detail)
    c.check(u.query == x.raw_query, "the library sees another query string", got=r.url, **detail)
    c.check(up.unquote(u.path) == up.unquote(x.root + x.path), "the library sees another path", got=r.url, **detail)
    # urlparse keeps path parameters (";...") apart
    c.check(";" in x.path or up.unquote(r.path) == up.unquote(x.root + x.path), "the library sees another path", got=r.path, **detail)
    c.check(dict(r.query) == {k: v for k, v in x.query.items() if v != ""}, "the library sees other query parameters", got=r.query, **detail)
    want = {k.lower(): v for k, v in x.headers}
    c.check({k.lower(): v for k, v in dict(r.headers).items()} == want, "the library sees other headers", got=r.headers, **detail)
    if x.form or not x.body:
        c.check(dict(r.form()) == {k: v for k, v in x.form.items() if v != ""}, "the library sees another body", got=r.form(), **detail)
        c.check(dict(r.data) == x.expected_data(), "the library sees other parameters", got=r.data, **detail)
    else:
        # not a form: the library makes of it what it makes of these octets
        d = Request(method=x.method, url=r.url, headers=dict(r.headers), body=x.body)
        c.check(dict(r.form()) == dict(d.form()) and dict(r.data) == dict(d.data), "the library sees another body", got=r.form(), **detail)
        c.count("raw-bodies")
    anonymous = x.user is None or getattr(x.user, "is_authenticated", True) is False
    c.check((r.user is None) if anonymous else (r.user is x.user), "the library sees another user", got=r.user, **detail)
    c.count("requests-compared")


def judge_response(c, x, status, headers, body, **detail):
    """The raw response is exactly (status, headers, body)."""
    starts, got = x.response()
    if not c.check(len(starts) == 1 and x.sent and x.sent[0]["type"] == "http.response.start" and not x.sent[-1].get("more_body"), "there is not exactly one complete response", sent=x.sent, **detail):
        return
    c.check(starts[0]["status"] == status, "the response has another status", got=starts[0]["status"], expected=status, **detail)
    c.check(got == body, "the response has another body", got=got, expected=body, **detail)
    raw = [(k.decode("latin-1").lower(), v.decode("latin-1")) for k, v in starts[0].get("headers", [])]
    want = sorted((k.lower(), v) for k, v in headers.items())
    extra = list(raw)
    for h in want:
        if h in extra:
            extra.remove(h)
        else:
            c.fail("a header of the endpoint's response is missing or changed", header=h, got=raw, **detail)
    for k, v in extra:
        ok = k == "content-length" and v == str(len(body)) and [n for n, _ in raw].count(k) == 1
        c.check(ok, "the response has a header the endpoint did not set", header=(k, v), got=raw, **detail)
    c.count("responses-compared")


HEADERS = ["authorization", "Authorization", "AUTHORIZATION", "accept", "X-Custom", "cookie", "User-Agent", "X-Forwarded-For", "x-empty", "DNT", "Content-Language"]
HVALUES = ["Basic Y2xpZW50OnNlY3JldA==", "basic  Zm9v", "Bearer abc.def", "text/html, */*;q=0.8", "v", "", "a=b; c=d", "x\xe9y", "  spaced", "\"q\"", "1,2,3"]


def headers(rng):
    out, names = [], set()
    for _ in range(rng.randrange(0, 6)):
        h = rng.choice(HEADERS)
        if h.lower() not in names:
            names.add(h.lower())
            out.append((h, rng.choice(HVALUES)))
    return out


PATHS = ["/token", "/", "/oauth/authorize", "/a b", "/ünï/ç", "/x%41", "/a//b", "/trailing/", "/dots/../x", "/semi;colon", "/plus+", "/日本"]


def some_user(rng):
    return rng.choice([None, UnauthenticatedUser(), Dormant("dormant"), Guest("guest"), O.User("plain"), LoggedIn("li"), SimpleUser("simple"), LoggedIn("ü")])


def part_requests(c, rng):
    p = StarletteProvider("https://op.example", adapter=O.Store("x").adapter(), grants=[], scopes=[], keyset=None, error_url="https://op.example/error")
    for i in range(c.n(4000, 60000)):
        method = rng.choice(["GET", "POST", "POST"])
        kw = {}
        if method == "POST":
            if rng.random() < 0.1:
                kw = dict(raw_body=bytes(rng.getrandbits(8) for _ in range(rng.randrange(1, 50))) if rng.random() < 0.5 else rng.choice([b"a=\xff", b"\xfea=b&c=d", b"a=b&\xc3=d", b"\xef\xbb\xbfa=b", b"a=b\r\n", b" a=b", b"a=b&&c=d;e", b"a=\xc3\xa9", b"a=1&a=2", b"=&=a", b"a", b"\0a=\0"]))
            else:
                kw = dict(form=params(rng))
                if rng.random() < 0.05:
                    kw["form"]["big"] = "z" * rng.choice([5000, 70000, 300000])
        x = Exchange(rng, method, rng.choice(PATHS), query=params(rng), headers=headers(rng), user=some_user(rng), **kw)
        c.case("request", (x.method, x.path, x.raw_query, x.body[:2000], len(x.body), str(x.headers), len(x.pending), repr(type(x.user))), sample=(x.method, x.raw_query, x.body[:80], x.headers))
        req = SRequest(x.scope(), x.receive, x.send)
        if rng.random() < 0.1:
            O.run(req.body())          # the application looked at the body first
            c.count("body-read-before")
        if len(x.pending) > 1:
            c.count("chunked")
        r = O.run(p.create_request(req))
        judge_request(c, x, r)
        c.check(not x.sent, "something was sent while the request was read", sent=x.sent)
        if i % 10 == 0:
            # the same framework request can be converted again (authorize after consent)
            # (refusing it, once the body stream is consumed, is not judged; seeing something else is)
            try:
                r = O.run(p.create_request(req))
            except RuntimeError:
                r = None
            if r is not None:
                judge_request(c, x, r)
    # disconnects
    for i in range(c.n(300, 3000)):
        x = Exchange(rng, "POST", "/token", form=params(rng, 4), user=some_user(rng))
        while len(x.pending) < 2:
            x.pending = chunks(rng, x.body)
        x.disconnect_after = rng.randrange(0, len(x.pending))
        if x.disconnect_after and not x.pending[x.disconnect_after - 1].get("more_body"):
            continue
        c.case("disconnect", (x.body, x.disconnect_after))
        try:
            r = O.run(p.create_request(SRequest(x.scope(), x.receive, x.send)))
        except Exception as exc:
            c.count("disconnect:" + type(exc).__name__)
            continue
        c.fail("an incomplete body was passed on as a request", received=x.received, body=x.body, got=r.form())


def part_responses(c, rng):
    p = StarletteProvider("https://op.example", adapter=O.Store("x").adapter(), grants=[], scopes=[], keyset=None, error_url="https://op.example/error")
    names = ["Cache-Control", "Pragma", "WWW-Authenticate", "X-Thing", "content-language", "Location", "Set-Cookie", "Content-Type", "content-type"]
    for i in range(c.n(2000, 30000)):
        hs, used = {}, set()
        for _ in range(rng.randrange(0, 5)):
            n = rng.choice(names)
            if n.lower() not in used:
                used.add(n.lower())
                hs[n] = rng.choice(["no-store", "no-cache", "Basic realm=\"x\"", "v\xe9", "a=b; Path=/", "text/html; charset=utf-8", "https://c.example/cb?code=1&state=%20", "application/json", ""])
        kind = rng.choice(["plain", "json", "redirect", "bare"])
        status = rng.choice([200, 200, 201, 303, 400, 401, 403, 404, 405, 418, 500, 503])
        if kind == "plain":
            body = rng.choice([b"", b"x", bytes(rng.getrandbits(8) for _ in range(rng.randrange(0, 400))), "text é", "日本" * 50, b"\xff\xfe"])
            r = Response(status, dict(hs), body)
            raw = body.encode() if isinstance(body, str) else body
        elif kind == "bare":
            r, raw = Response(), b""
        elif kind == "json":
            value = rng.choice([{"access_token": "t", "expires_in": 3600}, {"error": "invalid_grant", "error_description": "x \"é\" 日"}, {}, {"a": [1, None, True, {"b": "\n"}]}, {"n": "z" * 5000}])
            hs.pop("Content-Type", None), hs.pop("content-type", None)
            r = JSONResponse(status, dict(hs), value)
            raw = r.body
            c.check(isinstance(raw, bytes) and json.loads(raw.decode("utf-8")) == value, "a JSON response does not carry its value", value=value, body=raw)
        else:
            hs.pop("Location", None)
            r = RedirectResponse("https://c.example/cb?code=abc&state=" + O.pct(rng.choice(TEXTS)), headers=dict(hs))
            raw = b""
            status = r.status_code
        O.Reply(r)
        want = dict(r.headers)
        c.case("response", (kind, status, str(sorted(want.items())), raw), sample=(kind, status, want, raw[:60]))
        if kind != "bare":
            c.check(r.status_code == status, "the status changed", got=r.status_code, expected=status)
        x = Exchange(rng, "GET", "/")
        made = O.run(p.create_response(r))
        if not c.check(callable(made), "a response was converted into something that is not an ASGI response", got=made, kind=kind, status=r.status_code, headers=want):
            continue
        O.run(made(x.scope(), x.receive, x.send))
        judge_response(c, x, r.status_code, want, raw, kind=kind)
        c.check(dict(r.headers) == want and r.body == raw, "conveying a response changed it", headers=r.headers)


# ------------------------------------------------------------------------------------------------- whole applications
class ViaHeader(AuthenticationBackend):
    """Who is logged in is decided by the application's session, here a cookie."""

    def __init__(self, store):
        self.store = store

    async def authenticate(self, request):
        who = request.cookies.get("session")
        if who in self.store.users:
            return AuthCredentials(["authenticated"]), self.store.users[who]
        return None


def seen_by_library(r):
    """The request as the endpoint gets it (endpoints consume its data)."""
    lacking = [n for n in ("method", "url", "path", "query", "headers", "form", "data", "user") if not hasattr(r, n)]
    if lacking:
        raise core.Violated("the converted request %r lacks %s" % (r, lacking))
    form = dict(r.form())
    return types.SimpleNamespace(method=r.method, url=r.url, path=r.path, query=dict(r.query), headers=dict(r.headers), form=lambda: form, data=dict(r.data), user=r.user)


class App:
    def __init__(self, c, rng, name="app"):
        self.c, self.rng = c, rng
        self.s = O.Store(name)
        for u in ("u1", "u2", "u3"):
            self.s.add(LoggedIn(u))
        self.uris = ["https://c.example/cb", "https://c.example/other?keep=1"]
        self.clients = [self.s.add(O.Client("c%d" % i, "s%d é" % i if i == 2 else "s%d" % i, m, ["a", "b", "openid"], self.uris, ["authorization_code", "refresh_token", "client_credentials"])) for i, m in enumerate(["client_secret_basic", "client_secret_post", "client_secret_basic"])]
        self.p = O.provider(self.s, ["a", "b", "openid"], cls=StarletteProvider)
        self.captured = {}

        def view(endpoint):
            async def handle(request):
                r = await self.p.create_request(request)
                seen = seen_by_library(r)
                resp = await endpoint(r)
                self.captured[O.TAG.get()] = (seen, resp, resp.status_code, dict(resp.headers), bytes(resp.body))
                return await self.p.create_response(resp)
            return handle

        async def consent(request):
            r = await self.p.create_request(request)
            seen = seen_by_library(r)
            data = await self.p.authorize.get_consent_data(r)
            if not isinstance(data, Response) and not (isinstance(data, dict) and {"client", "scopes"} <= set(data) and all(hasattr(s, "name") for s in data["scopes"])):
                raise core.Violated("consent data is %r" % (data,))
            resp = data if isinstance(data, Response) else JSONResponse(200, None, {"client": data["client"].get_client_id(), "scopes": [s.name for s in data["scopes"]]})
            self.captured[O.TAG.get()] = (seen, resp, resp.status_code, dict(resp.headers), bytes(resp.body))
            if isinstance(data, Response):
                return await self.p.create_response(data)
            return await self.p.create_response(resp)

        self.asgi = Starlette(routes=[Route("/authorize", view(self.p.authorize), methods=["GET", "POST"]), Route("/consent", consent, methods=["GET"]), Route("/token", view(self.p.token), methods=["POST"]), Route("/revoke", view(self.p.revoke), methods=["POST"])],
                              middleware=[Middleware(AuthenticationMiddleware, backend=ViaHeader(self.s))])
        self.n = 0

    async def exchange(self, tag, x):
        O.TAG.set(tag)
        await self.asgi(x.scope(), x.receive, x.send)

    def make(self):
        """One request: (tag, exchange, judge)."""
        rng, c, s = self.rng, self.c, self.s
        self.n += 1
        tag = "%s-%d" % (s.name, self.n)
        who = rng.choice(["u1", "u2", "u3", None, "nobody"])
        cookie = [("cookie", "other=1; session=" + who)] if who else []
        cl = rng.choice(self.clients)
        kind = rng.choice(["authorize", "authorize", "consent", "code", "refresh", "cc", "revoke"])
        mark = s.mark()
        if kind in ("authorize", "consent"):
            q = {"response_type": "code", "client_id": cl.id, "redirect_uri": rng.choice(self.uris), "scope": rng.choice(["a", "a b"]), "state": tag + rng.choice(TEXTS[:13]), "code_challenge": "v" * 43, "code_challenge_method": "plain"}
            hs = cookie + ([("X-Real-IP", "10.0.0.1")] if rng.random() < 0.3 else [])
            if kind == "authorize" and rng.random() < 0.4:
                names = rng.sample(sorted(q), rng.randrange(0, 8))
                x = Exchange(rng, "POST", "/authorize", query={k: v for k, v in q.items() if k not in names}, form={k: q[k] for k in names}, headers=hs, set_user=False)
            else:
                x = Exchange(rng, "GET", "/" + kind, query=q, headers=hs, set_user=False)
            want = dict(q)
        else:
            if kind == "code":
                f = {"grant_type": "authorization_code", "code": s.put_code("code-" + tag, cl, s.users["u1"], self.uris[0], ["a", "b"], "v" * 43), "redirect_uri": self.uris[0], "code_verifier": "v" * 43}
            elif kind == "refresh":
                f = {"grant_type": "refresh_token", "refresh_token": s.put_refresh("rt-" + tag + rng.choice(TEXTS[:13]), cl, s.users["u2"], ["a", "b"]), "scope": "a"}
            elif kind == "cc":
                f = {"grant_type": "client_credentials", "scope": "b a"}
            else:
                f = {"token": s.put_refresh("rv-" + tag + rng.choice(TEXTS[:13]), cl, s.users["u2"], ["a"]), "token_type_hint": "refresh_token"}
            bad = rng.random() < 0.25
            f2, h2 = O.client_auth(O.Client(cl.id, "wrong" if bad else cl.secret, cl.method), f)
            x = Exchange(rng, "POST", "/revoke" if kind == "revoke" else "/token", form=f2, headers=list(h2.items()) + cookie, set_user=False)
            want = (f2, bad)
        x.user = s.users.get(who)
        return tag, x, lambda: self.judge(tag, x, kind, cl, who, want)

    def judge(self, tag, x, kind, cl, who, want):
        c, s = self.c, self.s
        detail = dict(kind=kind, who=who, query=x.raw_query, body=x.body, hdrs=x.headers)
        if not c.check(tag in self.captured, "the endpoint was never reached", sent=x.sent, **detail):
            return
        r, resp, status, hs, body = self.captured.pop(tag)
        judge_request(c, x, r)
        judge_response(c, x, status, hs, body, kind=kind)
        starts, got = x.response()
        raw = {k.decode().lower(): v.decode("latin-1") for k, v in starts[0]["headers"]}
        mine = [e for e in s.log if e.tag == tag]
        if kind == "authorize":
            loc = raw.get("location", "")
            d = dict(up.parse_qsl(up.urlsplit(loc).query, keep_blank_values=True))
            saved = [e for e in mine if e.name == "save_authorization_code"]
            if who in s.users:
                c.count("authorize:logged-in")
                if c.check(starts[0]["status"] in (302, 303) and loc.startswith(want["redirect_uri"]) and len(saved) == 1 and d.get("code") == saved[0].args[0], "a logged-in visitor's valid request did not get a code", location=loc, **detail):
                    c.check(saved[0].args[3] == ("user", who) and saved[0].args[2] == ("client", cl.id), "the code is for another user or client", saved=saved, **detail)
            else:
                c.count("authorize:anonymous")
                c.check("code" not in d and not saved, "a code was issued to a visitor who is not logged in", location=loc, **detail)
            c.check(d.get("state") == want["state"], "the state did not survive the round trip", got=d.get("state"), **detail)
        elif kind == "consent":
            c.count("consent")
            c.check(json.loads(got) == {"client": cl.id, "scopes": want["scope"].split()}, "consent data is not what was requested", got=got, **detail)
        elif kind == "revoke":
            c.count("revoke")
            f, bad = want
            done = [e for e in mine if e.name == "revoke_token"]
            if bad:
                c.check(not done and starts[0]["status"] in (400, 401), "a token was revoked without the client's secret", **detail)
            else:
                c.check(starts[0]["status"] == 200 and len(done) == 1 and done[0].args == (("client", cl.id), f["token"], f["token_type_hint"]), "the revocation did not arrive as sent", events=mine, **detail)
        else:
            f, bad = want
            if bad:
                c.count("token-refused")
                c.check(starts[0]["status"] in (400, 401) and b"access_token" not in got, "a token was issued without the client's secret", **detail)
            else:
                c.count("token-issued")
                ok = starts[0]["status"] == 200 and json.loads(got).get("access_token") in s.access and raw.get("content-type", "").startswith("application/json")
                c.check(ok, "a valid token request over HTTP failed", got=got, raw=raw, **detail)


def part_apps(c, rng):
    app = App(c, rng)
    for i in range(c.n(1500, 20000)):
        tag, x, judge = app.make()
        c.case("app", (x.raw_query, x.body, str(x.headers)), sample=(x.method, x.path, x.raw_query[:80], x.body[:80]))
        O.run(app.exchange(tag, x))
        judge()
        if i % 200 == 0:
            del app.s.log[:]
    # disconnect in the middle: nothing may happen
    for i in range(c.n(150, 1500)):
        tag, x, judge = app.make()
        x.pending = chunks(rng, x.body)
        if x.method != "POST" or len(x.pending) < 2:
            continue
        x.disconnect_after = rng.randrange(0, len(x.pending))
        before = app.s.mark()
        c.case("app-disconnect", (x.body, x.disconnect_after))
        try:
            O.run(app.exchange(tag, x))
        except Exception:
            pass
        c.count("app-disconnects")
        c.check(not app.s.since(before), "an incomplete request had effects", events=app.s.since(before), body=x.body)
        c.check(not [m for m in x.sent if m["type"] == "http.response.start" and m["status"] < 400], "an incomplete request was answered with success", sent=x.sent)
    # concurrently
    apps = [App(c, rng, "p%d" % i) for i in range(2)]
    for i in range(c.n(120, 1500)):
        jobs = []
        for _ in range(rng.randint(2, 12)):
            a = rng.choice(apps)
            jobs.append((a,) + a.make())

        async def go():
            await asyncio.gather(*(a.exchange(t, x) for a, t, x, _ in jobs))

        O.run(go())
        for a, t, x, judge in jobs:
            c.case("concurrent", (x.raw_query, x.body, str(x.headers), i))
            judge()
        for a in apps:
            del a.s.log[:]


def run(c):
    part_requests(c, c.sub_rng("requests"))
    part_responses(c, c.sub_rng("responses"))
    part_apps(c, c.sub_rng("apps"))
    c.require("requests-compared", 5000)
    c.require("responses-compared", 3000)
    c.require("chunked", 1000)
    for k in ("authorize:logged-in", "authorize:anonymous", "consent", "revoke", "token-issued", "token-refused"):
        c.require(k, 100)
    c.require("app-disconnects", 20)
