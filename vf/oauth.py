"""An application around psion's OAuth 2.1 / OIDC provider: recording in-memory storage, request builder and
response reader. Nothing in here reads psion's private state."""
import asyncio
import base64
import contextlib
import contextvars
import copy
import datetime
import hashlib
import json
import os
import random
import urllib.parse as up
import weakref

from vf import core
from psion.oauth2.adapter import BaseAdapter
from psion.oauth2.grants import AuthorizationCodeGrant, ClientCredentialsGrant, RefreshTokenGrant
from psion.oauth2.mixins import AuthorizationCodeMixin, ClientMixin, RefreshTokenMixin, UserMixin
from psion.oauth2.models import Request, Scope
from psion.oauth2.providers.base import BaseProvider
from psion.oidc.flows.authorization_code import AuthorizationCodeFlow

OAUTH_ERRORS = {
    "invalid_request", "invalid_client", "invalid_grant", "unauthorized_client", "unsupported_grant_type", "invalid_scope",
    "access_denied", "unsupported_response_type", "server_error", "temporarily_unavailable", "unsupported_token_type",
}
EFFECTS = {"save_authorization_code", "create_access_token", "create_refresh_token", "revoke_token", "delete_authorization_code"}
ISSUING = {"save_authorization_code", "create_access_token", "create_refresh_token"}

TAG = contextvars.ContextVar("vf_request", default=None)

_loop = None


def loop():
    global _loop
    if _loop is None:
        _loop = asyncio.new_event_loop()
        asyncio.set_event_loop(_loop)
    return _loop


def run(coro):
    return loop().run_until_complete(coro)


# --------------------------------------------------------------------------------------------- application objects
_LIVE = weakref.WeakKeyDictionary()


def _live(obj, name, truth):
    """The same list each time, as many applications return it: what the library does to it is there the next time."""
    d = _LIVE.setdefault(obj, {})
    truth = tuple(truth)
    if name not in d or d[name][0] != truth:
        d[name] = (truth, list(truth))
    return d[name][1]


class Client(ClientMixin):
    def __init__(self, id, secret, method, scopes=(), uris=(), grants=(), responses=("code",), default=None):
        self.id, self.secret, self.method = id, secret, method
        self.scopes, self.uris, self.grants, self.responses = list(scopes), list(uris), list(grants), list(responses)
        self.default = default

    def get_client_id(self):
        return self.id

    def get_client_secret(self):
        return self.secret

    def get_allowed_scopes(self, scopes):
        if scopes is None:
            return _live(self, "default", self.scopes if self.default is None else self.default)
        return [s for s in scopes if s in self.scopes]

    def get_redirect_uris(self):
        return _live(self, "uris", self.uris)

    def get_token_endpoint_auth_method(self):
        return self.method

    def get_grant_types(self):
        return _live(self, "grants", self.grants)

    def get_response_types(self):
        return _live(self, "responses", self.responses)

    def __repr__(self):
        return "Client(%r,%r,%s)" % (self.id, self.secret, self.method)


class User(UserMixin):
    def __init__(self, id, info=None):
        self.id = id
        self.info = info

    def get_user_id(self):
        return self.id

    def __repr__(self):
        return "User(%r)" % self.id


class Code(AuthorizationCodeMixin):
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def get_client_id(self):
        return self.client_id

    def get_user_id(self):
        return self.user_id

    def get_redirect_uri(self):
        return self.redirect_uri

    def get_scopes(self):
        return _live(self, "scopes", self.scopes)

    def get_code_challenge(self):
        return self.code_challenge

    def get_code_challenge_method(self):
        return self.code_challenge_method

    def get_nonce(self):
        return self.nonce

    def get_auth_time(self):
        return None

    def get_expiration(self):
        return self.expiration

    def __repr__(self):
        return "Code(%r)" % self.__dict__


class Refresh(RefreshTokenMixin):
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def get_refresh_token(self):
        return self.token

    def get_client_id(self):
        return self.client_id

    def get_user_id(self):
        return self.user_id

    def get_scopes(self):
        return _live(self, "scopes", self.scopes)

    def get_expiration(self):
        return self.expiration


class Event:
    __slots__ = ("tag", "name", "args", "seq")

    def __init__(self, tag, name, args, seq):
        self.tag, self.name, self.args, self.seq = tag, name, args, seq

    def __repr__(self):
        return "%s:%s%r" % (self.tag, self.name, self.args)


def _ident(x):
    if isinstance(x, Client):
        return ("client", x.id)
    if isinstance(x, User):
        return ("user", x.id)
    return copy.deepcopy(x)


FAR = datetime.datetime(2200, 1, 1)


class Store:
    """The application's storage; every adapter call is logged with the request that caused it."""

    def __init__(self, name="s"):
        self.name = name
        self.clients, self.users, self.codes, self.refresh, self.access = {}, {}, {}, {}, {}
        self.revoked = []
        self.log = []
        self.n = 0
        self.handed = 0
        self.gate = None      # async (phase, name, args) -> None; scheduling and faults
        self.code_expiration = lambda: FAR
        self.refresh_expiration = lambda: FAR
        self.keyinfo = None
        self.userinfo = lambda user, scopes: {"sub": user.id}

    def add(self, *things):
        for t in things:
            (self.clients if isinstance(t, Client) else self.users)[t.id] = t
        return things[0] if len(things) == 1 else things

    def put_code(self, code, client, user, uri, scopes, challenge, method="plain", nonce=None, expiration=None):
        self.codes[code] = Code(client_id=client.id, user_id=user.id, redirect_uri=uri, scopes=list(scopes), code_challenge=challenge,
                                code_challenge_method=method, nonce=nonce, expiration=expiration or self.code_expiration())
        return code

    def put_refresh(self, token, client, user, scopes, expiration=None):
        self.refresh[token] = Refresh(token=token, client_id=client.id, user_id=user.id, scopes=list(scopes),
                                      expiration=expiration or self.refresh_expiration())
        return token

    def snapshot(self):
        return (sorted(self.codes), sorted(self.access), sorted(self.refresh), list(self.revoked))

    def _object(self, thing):
        """As applications do: sometimes the same object again, sometimes one made for this call only."""
        self.handed += 1
        return copy.copy(thing) if self.handed % 3 else thing

    def mark(self):
        return len(self.log)

    def since(self, mark, names=None):
        return [e for e in self.log[mark:] if names is None or e.name in names]

    def adapter(self):
        store = self

        class Adapter(BaseAdapter):
            vf_store = store   # lets an extension tell whose storage it was given

            async def _enter(self, name, *args):
                if store.gate is not None:
                    await store.gate("enter", name, args)
                store.n += 1
                store.log.append(Event(TAG.get(), name, tuple(_ident(a) for a in args), store.n))

            async def _exit(self, name, *args):
                if store.gate is not None:
                    await store.gate("exit", name, args)

            async def find_user(self, user_id):
                await self._enter("find_user", user_id)
                r = store._object(store.users.get(user_id))
                await self._exit("find_user", user_id)
                return r

            async def find_client(self, client_id):
                await self._enter("find_client", client_id)
                r = store._object(store.clients.get(client_id))
                await self._exit("find_client", client_id)
                return r

            async def save_authorization_code(self, code, data, client, user):
                await self._enter("save_authorization_code", code, data, client, user)
                store.codes[code] = Code(
                    client_id=client.get_client_id(), user_id=user.get_user_id(), redirect_uri=data["redirect_uri"],
                    scopes=list(data["scopes"]), code_challenge=data["code_challenge"],
                    code_challenge_method=data["code_challenge_method"], nonce=data.get("nonce"),
                    expiration=store.code_expiration())
                await self._exit("save_authorization_code", code)

            async def get_authorization_code(self, code):
                await self._enter("get_authorization_code", code)
                r = store._object(store.codes.get(code))
                await self._exit("get_authorization_code", code)
                return r

            async def delete_authorization_code(self, code):
                await self._enter("delete_authorization_code", code)
                store.codes.pop(code, None)
                await self._exit("delete_authorization_code", code)

            async def create_access_token(self, client, user, scopes):
                await self._enter("create_access_token", client, user, scopes)
                token = "AT-%s-%d-%s" % (store.name, store.n, hashlib.sha1(repr((store.name, store.n)).encode()).hexdigest()[:16])
                store.access[token] = (_ident(client), _ident(user), None if scopes is None else list(scopes))
                await self._exit("create_access_token", client, user, scopes)
                return token

            async def get_userinfo(self, user, scopes):
                await self._enter("get_userinfo", user, scopes)
                r = store.userinfo(user, scopes)
                await self._exit("get_userinfo", user, scopes)
                return r

            async def get_key_info(self):
                await self._enter("get_key_info")
                await self._exit("get_key_info")
                return dict(store.keyinfo)

            async def create_refresh_token(self, client, user, scopes):
                await self._enter("create_refresh_token", client, user, scopes)
                token = "RT-%s-%d" % (store.name, store.n)
                store.refresh[token] = Refresh(token=token, client_id=client.get_client_id(), user_id=user.get_user_id(),
                                               scopes=list(scopes or []), expiration=store.refresh_expiration())
                await self._exit("create_refresh_token", client, user, scopes)
                return token

            async def get_refresh_token(self, token):
                await self._enter("get_refresh_token", token)
                r = store._object(store.refresh.get(token))
                await self._exit("get_refresh_token", token)
                return r

            async def revoke_token(self, client, token, token_type_hint):
                await self._enter("revoke_token", client, token, token_type_hint)
                store.revoked.append((client.get_client_id(), token, token_type_hint))
                rt = store.refresh.get(token)
                if rt is not None and rt.client_id == client.get_client_id():
                    del store.refresh[token]
                at = store.access.get(token)
                if at is not None and at[0] == ("client", client.get_client_id()):
                    del store.access[token]
                await self._exit("revoke_token", client, token, token_type_hint)

        return Adapter


class Provider(BaseProvider):
    async def create_request(self, request):
        return request

    async def create_response(self, response):
        return response


ALL_GRANTS = (AuthorizationCodeGrant, RefreshTokenGrant, ClientCredentialsGrant)


def provider(store, scopes, grants=ALL_GRANTS, issuer="https://op.example", error_url="https://op.example/error", oidc=False, cls=Provider, **kw):
    p = cls(issuer, adapter=store.adapter(), grants=list(grants), scopes=[Scope(s, "about " + s) for s in scopes],
            keyset=kw.pop("keyset", None), error_url=error_url, **kw)
    if oidc:
        p.add_hook(AuthorizationCodeGrant, AuthorizationCodeFlow)
    return p


# --------------------------------------------------------------------------------------------- requests
RAW = "!$'()*,;:@/?"   # characters a query may hold unencoded


def pct(s, rng=None, style="qp"):
    """application/x-www-form-urlencoded; styles: qp (space as +), pct (only %), all (every octet), raw (all that a query may hold as it is)."""
    if isinstance(s, bytes):
        raw = s
    else:
        raw = s.encode("utf-8")
    out = []
    for b in raw:
        ch = chr(b)
        if style != "all" and (ch.isalnum() and b < 128 or ch in "-._~" or style == "raw" and ch in RAW):
            out.append(ch)
        elif ch == " " and style == "qp":
            out.append("+")
        else:
            out.append(("%%%02X" if style != "low" else "%%%02x") % b)
    return "".join(out)


def encode(pairs, style="qp"):
    if isinstance(pairs, dict):
        pairs = list(pairs.items())
    return "&".join("%s=%s" % (pct(k, style=style), pct(v, style=style)) for k, v in pairs if v is not None)


def basic(client_id, secret, scheme="Basic"):
    return scheme + " " + base64.b64encode(("%s:%s" % (client_id, secret)).encode("utf-8")).decode()


# parameters and headers of other protocols and habits: they mean nothing here
NOISE = [("prompt", ["none", "login", "consent", "select_account"]), ("max_age", ["0", "-1", "3600"]), ("display", ["page", "popup"]), ("ui_locales", ["en", "fr-CA"]), ("acr_values", ["0", "urn:x"]),
         ("login_hint", ["u1", "admin"]), ("id_token_hint", ["e30.e30."]), ("response_mode", ["query", "fragment", "form_post"]), ("claims", ['{"userinfo":{}}']), ("resource", ["https://r.example"]),
         ("audience", ["https://api.example"]), ("username", ["u1"]), ("password", ["p"]), ("assertion", ["e30.e30."]), ("user_id", ["u1"]), ("user", ["u1"]), ("sub", ["u1"]), ("access_type", ["offline"]),
         ("approval_prompt", ["force"]), ("include_granted_scopes", ["true"]), ("expires_in", ["999999999", "0"]), ("device_code", ["x"]), ("debug", ["1", "true"]), ("dry_run", ["1"]), ("force", ["1"]),
         ("trusted", ["true"]), ("first_party", ["true"]), ("skip_consent", ["1"]), ("audit", ["1"]), ("locale", ["tr_TR"]), ("_", ["1700000000"]), ("format", ["json", "xml"]), ("callback", ["cb"]),
         ("version", ["1", "2"]), ("api_version", ["1.0"]), ("tenant", ["t1"]), ("realm", ["r"]), ("v", ["1"]), ("session_state", ["x"]), ("issuer", ["https://op.example"]), ("iss", ["https://op.example"])]
NOISE_HEADERS = [("User-Agent", ["curl/8", "Mozilla/5.0", "internal-health-check", ""]), ("Accept", ["*/*", "application/json", "text/html"]), ("Cookie", ["session=1; admin=1"]), ("X-Forwarded-For", ["127.0.0.1", "10.0.0.1"]),
                 ("X-Forwarded-Proto", ["http", "https"]), ("X-Forwarded-Host", ["evil.example"]), ("Host", ["localhost", "op.example"]), ("Origin", ["https://evil.example", "null"]), ("Referer", ["https://op.example/login"]),
                 ("X-Requested-With", ["XMLHttpRequest"]), ("X-Debug", ["1"]), ("X-Original-URL", ["/admin"]), ("X-Remote-User", ["admin"]), ("Proxy-Authorization", ["Basic YTpi"]), ("X-HTTP-Method-Override", ["GET"]),
                 ("DPoP", ["e30.e30."]), ("Accept-Language", ["tr"]), ("Connection", ["keep-alive"]), ("X-Client-Id", ["c1"])]
NOISY = [True]
CTYPES = [("Content-Type", "application/x-www-form-urlencoded")] * 3 + [("content-type", "application/x-www-form-urlencoded; charset=UTF-8"), ("Content-Type", "application/x-www-form-urlencoded;charset=utf-8"),
                                                                       ("CONTENT-TYPE", "application/x-www-form-urlencoded"), ("Content-Type", "Application/X-WWW-Form-Urlencoded")]


FORCED = []


@contextlib.contextmanager
def forced(params, headers):
    """Within it every request carries just these parameters and headers without a meaning."""
    FORCED.append((params, headers))
    try:
        yield
    finally:
        FORCED.pop()


def forcings():
    """Each parameter and each header of NOISE by itself: no check is switched off, and nothing refused, by one of them."""
    for k, vs in NOISE:
        for v in vs:
            yield {k: v}, {}
    for k, vs in NOISE_HEADERS:
        for v in vs:
            yield {}, {k: v}


def noise(form, query, headers):
    """In every third request: a few parameters and headers without a meaning, chosen by the request's own content."""
    if FORCED:
        params, more = FORCED[-1]
        items = [list(x.items()) if isinstance(x, dict) else list(x or []) for x in (form, query)]
        have = {k for x in items for k, v in x}
        extra = [(k, v) for k, v in params.items() if k not in have]
        have = {k.lower() for k in headers}
        headers.update({k: v for k, v in more.items() if k.lower() not in have})
        if form:
            return items[0] + extra, query
        return form, (items[1] + extra if query and form is None else query)
    if not NOISY[0]:
        return form, query
    r = random.Random("%s|%r|%r|%r" % (os.environ.get("VERIF_SEED", "1"), form, query, sorted(headers)))
    if r.random() >= 0.33:
        return form, query
    pairs = lambda x: list(x.items()) if isinstance(x, dict) else list(x)
    if r.random() < 0.8:
        names = {k for x in (form, query) for k, v in pairs(x or [])}
        extra = [(k, r.choice(v)) for k, v in r.sample(NOISE, r.choice([1, 1, 2, 4])) if k not in names]
        if r.random() < 0.04:
            extra = extra + [("x%d" % i, str(i)) for i in range(r.choice([20, 70, 150]))]
        if form:
            form = pairs(form) + extra if r.random() < 0.7 else extra + pairs(form)
        elif query and form is None:
            query = pairs(query) + extra if r.random() < 0.7 else extra + pairs(query)
    if r.random() < 0.5:
        have = {k.lower() for k in headers}
        headers.update({k: r.choice(v) for k, v in r.sample(NOISE_HEADERS, r.choice([1, 2, 4])) if k.lower() not in have})
    return form, query


def req(form=None, query=None, headers=None, user=None, method=None, url="https://op.example/x", style="qp", raw_body=None):
    h = dict(headers or {})
    if raw_body is None:
        form, query = noise(form, query, h)
    q = encode(query or [], style)
    body = raw_body
    if body is None and form is not None:
        body = encode(form, style).encode("ascii")
    if body is not None and "content-type" not in {k.lower() for k in h}:
        # several spellings of the one media type
        h[CTYPES[len(body) % len(CTYPES)][0]] = CTYPES[len(body) % len(CTYPES)][1]
    return Request(method=method or ("POST" if body is not None else "GET"), url=url + ("?" + q if q else ""),
                   headers=h, body=body if body is not None else b"", user=user)


class Reply:
    """What the HTTP client sees."""

    def __init__(self, r):
        self.raw = r
        try:
            self.status = r.status_code
            self.headers = {k.lower(): v for k, v in dict(r.headers).items()}
            self.body = r.body
            if not isinstance(self.body, (bytes, bytearray)):
                raise TypeError("body %r" % (self.body,))
        except (AttributeError, TypeError, ValueError) as exc:
            raise core.Violated("an endpoint returned %r instead of a response (%r)" % (r, exc))
        self.location = self.headers.get("location")
        self._json = None

    @property
    def json(self):
        if self._json is None:
            self._json = json.loads(self.body.decode("utf-8"))
        return self._json

    @property
    def is_token(self):
        try:
            return self.status == 200 and isinstance(self.json, dict) and "access_token" in self.json
        except (ValueError, AttributeError):
            return False

    @property
    def error(self):
        """Error code of a JSON refusal, or None."""
        try:
            j = self.json
        except (ValueError, AttributeError):
            return None
        return j.get("error") if isinstance(j, dict) else None

    def params(self):
        """Query parameters of the redirect, in order."""
        return up.parse_qsl(up.urlsplit(self.location or "").query, keep_blank_values=True)

    def base(self):
        return self.location.split("?", 1)[0]

    def __repr__(self):
        return "Reply(%s, %r, %r)" % (self.status, self.headers, self.body[:400])


def call(endpoint, request, tag=None):
    """Drive one request to its end. ('ok', Reply) or ('err', exception)."""
    TAG.set(tag)
    try:
        return "ok", Reply(run(endpoint(request)))
    except Exception as exc:
        return "err", exc


def must(c, endpoint, request, what, **detail):
    """Drive one request; an exception is a violation."""
    st, r = call(endpoint, request)
    if st != "ok":
        c.fail("%s: the endpoint raised %r" % (what, r), **detail)
        return None
    return r


def s256(verifier):
    return base64.urlsafe_b64encode(hashlib.sha256(verifier.encode("ascii")).digest()).rstrip(b"=").decode()


VCHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~"


def verifier(rng, n=None):
    n = n if n is not None else rng.choice([43, 44, 64, 100, 127, 128])
    return "".join(rng.choice(VCHARS) for _ in range(n))


def client_auth(client, form=None, headers=None):
    """Right credentials for `client`: (extra form, extra headers)."""
    form, headers = dict(form or {}), dict(headers or {})
    if client.method == "client_secret_basic":
        headers["Authorization"] = basic(client.id, client.secret)
    elif client.method == "client_secret_post":
        form["client_id"], form["client_secret"] = client.id, client.secret
    else:
        form["client_id"] = client.id
    return form, headers


def token_req(client, form, headers=None, query=None, style="qp", named=None):
    """`named`: the body (also) names this client, which says nothing when the client authenticates by its header."""
    f, h = client_auth(client, form, headers)
    if named is not None and client.method == "client_secret_basic":
        f["client_id"] = named
    return req(form=f, headers=h, query=query, style=style)


# look-alike IDs: prefixes, suffixes, extensions and case variants of each other
CIDS = ["c1", "c", "c12", "C1", "1c1", "c1-", "c1.example", "c11", "0", "c1x"]


def cids(rng, n):
    """n client IDs that a sloppy comparison could confuse; c1 is one of them."""
    out = ["c1"] + rng.sample(CIDS[1:] + ["c1/a", "c1 ", "\uff431", "c1_", "c1@x", "c1#", "c1?", "-c1", "c1-a", "c01", "c1,c", "c1%31"], n - 1)
    rng.shuffle(out)
    return out
UIDS = ["u1", "u", "u12", "U1", "1u1", "0", "u1@x"]


def same_scopes(a, b):
    return a is not None and b is not None and sorted(a) == sorted(b)
