"""C22: authorization responses deliver code, state and errors intact."""
from vf import authz as A
from vf import gen
from vf import oauth as O
from vf.checks.c13 import URIS

SCALE = 3
DEEP = 5
RULE = ("Authorization and consent requests that succeed or fail in every way, with states over all of Unicode and all reserved, percent and plus sequences and lengths to 8 KB, one fault or two at once, redirect URIs "
        "of every RFC 3986 shape (queries, encoded octets, ports, custom schemes), sent in the URL or the body in several encodings. Each redirect to the client is split into the registered URI and the "
        "added query by an independent parser; the added parameters must decode to exactly one state equal to the one sent (none if none was sent) and either a code or a registered error. "
        "A case is one (endpoint, URI, state, condition, encoding).")

SUPPORTED = ["openid", "profile", "email"]
STATES = ["s", "0", "None", "null", "false", "a b", "a+b", "a%20b", "%", "%%", "%2", "%zz", "%2B", "+", " ", "  lead", "trail  ", "a&b", "a=b", "&", "=", "?", "#", "/", "a#b", "x&state=evil", "x&code=evil",
          "x&error=access_denied", "x#code=1", "é", "e\u0301", "\u00a0", "\u2028", "\ufeff", "\U0001f600", "中文", "\u200b", "\"q\"", "<script>", "a\\b", "{\"k\": [1,2]}", "a;b", "a,b", "~", "*", "'",
          "(x)", "!", "$", "@", ":", "[x]", "|", "^", "`", "\t", "a\nb", "a\r\nSet-Cookie: x=1", "\x7f", "\x01", "%0d%0a", "%00", "http://evil.example/?a=b#c", "-._~", "a" * 2000, "é" * 1000, "&&&===???###" * 20,
          "=?utf-8?q?x?=", "%C3%A9", "%E9", "\ufffd", "$&", "\\1", "{}", "{0}", "%s", "%(x)s", "${x}", "&amp;", "+%2B+", "a\u0000b"]
FAULTS = ["none", "user", "rt", "client-rt", "challenge", "challenge-len", "method", "method-text", "scope", "scope-unsupported", "scope-hostile", "scope-forbidden", "no-rt"]


def rand_uri(rng):
    unres = "abcXYZ019-._~"
    sub = "!$&'()*+,;="
    def pc(extra=""):
        r = rng.random()
        return "%%%02X" % rng.randrange(256) if r < 0.15 else rng.choice(unres + sub + ":@" + extra)
    scheme = rng.choice(["https", "http", "com.example.app", "app+x", "a-b"])
    host = rng.choice(["client.example", "localhost", "127.0.0.1", "[::1]", "[2001:db8::1]", "xn--e1afmkfd.example", "u:p@h.example", "sub.client.example"])
    port = rng.choice(["", ":8080", ":1"])
    path = "".join("/" + "".join(pc() for _ in range(rng.randrange(0, 8))) for _ in range(rng.randrange(0, 4)))
    q = ""
    if rng.random() < 0.6:
        q = "?" + "".join(pc("/?") for _ in range(rng.randrange(0, 20)))
    return "%s://%s%s%s%s" % (scheme, host, port, path, q)


class World:
    def __init__(self, c, name, oidc, uris):
        self.c = c
        self.s = O.Store(name)
        self.user = self.s.add(O.User("u1"))
        self.err = "https://op.example/oauth/error"
        self.p = O.provider(self.s, SUPPORTED, oidc=oidc, error_url=self.err)
        self.uris = uris
        self.s.add(O.Client("c", "x", "none", ["openid", "profile"], uris, ["authorization_code"]))
        self.s.add(O.Client("n", "x", "none", ["openid", "profile"], uris, ["authorization_code"], ()))

    def send(self, uri, state, fault, consent, rng, style="qp", body=False, hostile="x"):
        c, s = self.c, self.s
        q = {"response_type": "code", "client_id": "c", "redirect_uri": uri, "scope": "openid profile", "code_challenge": "c" * 43, "code_challenge_method": "S256"}
        user = self.user
        parts = fault.split("+")
        if "user" in parts:
            user = None
        if "rt" in parts:
            q["response_type"] = hostile
        if "no-rt" in parts:
            del q["response_type"]
        if "client-rt" in parts:
            q["client_id"] = "n"
        if "challenge" in parts:
            del q["code_challenge"]
        if "challenge-len" in parts:
            q["code_challenge"] = "c" * rng.choice([1, 42, 129])
        if "method" in parts:
            del q["code_challenge_method"]
        if "method-text" in parts:
            q["code_challenge_method"] = hostile
        if "scope" in parts:
            del q["scope"]
        if "scope-unsupported" in parts:
            q["scope"] = "openid zzz"
        if "scope-hostile" in parts:
            q["scope"] = "openid x" + hostile
        if "scope-forbidden" in parts:
            q["scope"] = "email"
        if state is not None:
            q["state"] = state
        items = list(q.items())
        rng.shuffle(items)
        mark = s.mark()
        form = None
        if body:
            form, items = items, None
        elif rng.random() < 0.2:
            form, items = items[:3], items[3:]
        r = O.req(query=items, form=form, user=user, style=style)
        detail = dict(consent=consent, uri=uri, state=state, fault=fault, query=items, form=form)
        try:
            raw = O.run(self.p.authorize.get_consent_data(r) if consent else self.p.authorize(r))
        except Exception as exc:
            c.fail("the authorization endpoint raised %r" % exc, **detail)
            return
        c.case(("consent:" if consent else "authorize:") + fault, (uri, state, style, body, hostile), sample=(uri, state))
        if isinstance(raw, dict):
            c.count("consent-data")
            return
        rep = O.Reply(raw)
        detail["reply"] = rep
        loc = rep.location
        if not c.check(isinstance(loc, str) and 300 <= rep.status < 400, "the response is not a redirect", **detail):
            return
        if "no-rt" in parts and A.target(loc, self.err) is not None:
            c.count("error-page")
            return
        c.check(set(loc) <= A.ASCII_OK, "Location contains characters outside printable ASCII", **detail)
        t = A.target(loc, uri)
        if not c.check(t is not None, "the redirect does not keep the registered redirect URI", **detail):
            return
        names = [k for k, _ in t]
        for k in ("code", "state", "error", "error_description", "error_uri"):
            c.check(names.count(k) <= 1, "parameter %s occurs %d times" % (k, names.count(k)), **detail)
        d = dict(t)
        if state:
            c.count("states-compared")
            c.check(d.get("state") == state, "the state is not returned exactly as received", got=d.get("state"), **detail)
        else:
            c.check("state" not in d, "a state is returned although the request had none", **detail)
        if "error" in d:
            c.count("errors")
            c.check(d["error"] in O.OAUTH_ERRORS, "the error code is not a registered one", **detail)
            c.check("code" not in d, "an error response carries a code", **detail)
            c.check(fault != "none" or consent, "a valid request was answered with an error", **detail)
        else:
            c.count("codes")
            stored = s.since(mark, {"save_authorization_code"})
            c.check(not consent and len(stored) == 1 and d.get("code") == stored[0].args[0], "a response without error must carry the stored code", **detail)
            c.check(fault == "none", "a faulty request was not answered with an error", **detail)
        if {"scope-hostile", "rt", "method-text"} & set(parts) and "error" in d:
            c.count("hostile-descriptions")
            c.check(set(d) <= {"error", "error_description", "error_uri", "state", "iss"}, "text of the request leaked into other parameters", **detail)
        s.codes.clear()
        del s.log[:]


def run(c):
    rng = c.sub_rng("main")
    for oidc in (False, True):
        uris = URIS + [rand_uri(rng) for _ in range(c.n(100, 1500))]
        w = World(c, "w%d" % oidc, oidc, uris)
        styles = ["qp", "pct", "all", "low", "raw"]
        for st in STATES + [None]:
            for f in FAULTS:
                w.send(rng.choice(URIS), st, f, False, rng, rng.choice(styles), rng.random() < 0.3, hostile=rng.choice(["x", "token"] + [h for h in STATES if h.strip() and " " not in h][:60]))
            for f in ("scope", "client-rt", "no-rt"):
                w.send(rng.choice(URIS), st, f, True, rng, rng.choice(styles), rng.random() < 0.3)
        # several faults in one request: whichever is reported, the state goes with it
        for i, f in enumerate(FAULTS[1:]):
            for g in FAULTS[1:i + 1]:
                for _ in range(c.n(4, 12)):
                    w.send(rng.choice(URIS), rng.choice(STATES), g + "+" + f, rng.random() < 0.25, rng, rng.choice(styles), rng.random() < 0.3, hostile=rng.choice(["x", "token", "id_token", "a&b"]))
        # long states with every kind of redirect URI
        for u in uris:
            w.send(u, rng.choice(["a", "é", "a b+", "%2F"]) * 1200, rng.choice(["none", "user"]), False, rng)
        for u in uris:
            for f in ["none"] + rng.sample(FAULTS[1:], 3):
                w.send(u, rng.choice(STATES + [None]), f, f in ("scope", "client-rt") and rng.random() < 0.5, rng, rng.choice(styles), rng.random() < 0.3)
        for _ in range(c.n(2500, 60000)):
            st = rng.choice([gen.uni_text(rng, 1, 40), gen.text(rng, 1, 60), gen.text(rng, 1, 30, "%+&=?#/ 0aF"), chr(rng.choice([rng.randrange(1, 256), rng.randrange(0x80, 0xD800), rng.randrange(0xE000, 0x110000)]))])
            w.send(rng.choice(uris), st, rng.choice(["none", "none"] + FAULTS), rng.random() < 0.1, rng, rng.choice(styles), rng.random() < 0.3, hostile=gen.uni_text(rng, 1, 10).replace(" ", "") or "x")
        for n in (100, 1000, 8000):
            w.send(rng.choice(uris), gen.uni_text(rng, n, n), "none", False, rng)
            w.send(rng.choice(uris), gen.uni_text(rng, n, n), "user", False, rng)
        for cp in range(0, 256):  # every Latin-1 character, alone and inside
            w.send(URIS[cp % len(URIS)], chr(cp) + "x", "none", False, rng, styles[cp % 5])
            w.send(URIS[cp % len(URIS)], "x" + chr(cp), "user", False, rng, styles[cp % 5])
            w.send(URIS[cp % len(URIS)], chr(cp), "scope-unsupported", False, rng, styles[cp % 5])
            if chr(cp) in O.RAW:
                for f in FAULTS:
                    w.send(URIS[cp % len(URIS)], "a%sb" % chr(cp), f, False, rng, "raw", bool(cp % 2))
    c.require("states-compared", 3000)
    c.require("errors", 2000)
    c.require("codes", 1000)
