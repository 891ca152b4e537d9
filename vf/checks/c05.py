"""C05: registered claims are judged against the clock and their types at every layer."""
import itertools
import json

from vf import clock, gen, keys, refjose as R
from vf.psi import JsonWebToken, JsonWebTokenClaims, attempt, jwk
from psion.oidc.claims import IDToken

SCALE = 3
RULE = ("A frozen virtual clock (interposed libc time) is stepped over boundary seconds, sub-second parts and host time zones; claim sets with every "
        "registered claim at, around and far from the boundary and with every JSON type are given to each layer (claim set, ID Token, token construction, "
        "decoding of independently signed tokens with and without signature validation) and the accept/refuse outcome is compared with an executable "
        "specification. A case is one claim set at one layer and instant; distinct by (layer, zone, claims, instant).")

# instants around epoch arithmetic, DST switches of the zones used, 32-bit limits and leap years
INSTANTS = [3600, 86399, 86400, 951782400, 1078012799, 1583020800, 1615705200, 1615708799, 1615708800, 1616893200, 1617465600, 1635638400,
            1636261200, 1636264799, 1636264800, 1633190400, 1622505600, 1640995199, 1640995200, 2147483646, 2147483647, 2147483648, 4102444800, 4294967296]
TIMES = ("exp", "nbf", "iat")
TEXTS = ("iss", "sub", "jti")


def faults(claims, now, id_token=False):
    out = []
    get = lambda n: claims.get(n)
    for name in TIMES:
        v = get(name)
        if v is None:
            continue
        if isinstance(v, bool) or not isinstance(v, int):
            out.append(name + ":type")
        elif name == "exp" and v <= now:
            out.append("exp:expired")
        elif name == "nbf" and v > now:
            out.append("nbf:premature")
        elif name == "iat" and v > now:
            out.append("iat:future")
    for name in TEXTS:
        if get(name) is not None and not isinstance(get(name), str):
            out.append(name + ":type")
    aud = get("aud")
    if aud is not None and not isinstance(aud, str) and not (isinstance(aud, list) and all(isinstance(x, str) for x in aud)):
        out.append("aud:type")
    if id_token:
        v = get("auth_time")
        if v is not None and (isinstance(v, bool) or not isinstance(v, int)):
            out.append("auth_time:type")
        if get("max_age") is not None and v is None:
            out.append("auth_time:missing")
    return out


class Judge:
    def __init__(self, c):
        self.c = c
        self.key = keys.seeded_oct(c.rng)
        self.hrng = c.sub_rng("headers")
        self.jk = jwk(self.key)
        self.ec = keys.corpus_ec("P-256")[0]
        self.jec = jwk(self.ec)
        self.layers = {
            "claims": lambda d: JsonWebTokenClaims(d),
            "claims+options": lambda d: JsonWebTokenClaims(d, {"z": {"essential": True}}),
            "id-token": lambda d: IDToken(d),
            "id-token+nonce": lambda d: IDToken(dict(d, nonce="n"), {"nonce": "n"}),
            "token": lambda d: JsonWebToken(d, dict(self.hrng.choice(R.HEADERS), alg="HS256")),
            "decode": lambda d: JsonWebToken.decode(self.signed(d), self.jk, "HS256"),
            "decode-text": lambda d: JsonWebToken.decode(self.signed(d).decode(), self.jk),
            "decode+options": lambda d: JsonWebToken.decode(self.signed(d), self.jk, "HS256", True, {"z": {"essential": True}}),
            "decode-unvalidated": lambda d: JsonWebToken.decode(self.signed(d), self.jk, validate=False),
            "decode-es256": lambda d: JsonWebToken.decode(R.sign_token({"alg": "ES256"}, json.dumps(d).encode(), self.ec), self.jec, "ES256"),
        }

    def signed(self, d):
        return R.sign_token(dict(self.hrng.choice(R.HEADERS), alg="HS256"), json.dumps(d).encode(), self.key)

    def one(self, layer, claims, now, nsec, zone):
        c = self.c
        d = dict(claims, z=1)
        want = faults(d, now, layer.startswith("id-token"))
        with clock.at(now, nsec, zone):
            st, got = attempt(self.layers[layer], d)
        c.case(layer, (zone, now, nsec, json.dumps(d, sort_keys=True)), sample="t=%d.%09d %s %r -> %s" % (now, nsec, zone, d, want or "accept"))
        info = dict(layer=layer, claims=d, now=now, nsec=nsec, zone=zone)
        if want:
            c.check(st == "err", "a claim set with faults %s was accepted" % want, **info)
            for w in want:
                c.count("refused:" + w)
            if len(want) == 1:
                c.count("single-fault:" + want[0])
        else:
            c.check(st == "ok", "a claim set without fault was refused", error=repr(got), **info)
            c.count("accepted:" + layer)

    def later(self, d, made, used, zone):
        c = self.c
        cls = self.hrng.choice([JsonWebTokenClaims, IDToken])
        with clock.at(made, 0, zone):
            obj = cls(dict(d))
        with clock.at(used, 0, zone):
            st, got = attempt(lambda: JsonWebToken(obj, {"alg": "HS256"}))
        want = faults(d, used)
        c.case("made-earlier", (made, used, zone, repr(d)), sample="made %d used %d %r -> %s" % (made, used, d, want or "accept"))
        info = dict(claims=d, made=made, used=used, zone=zone, kind=cls.__name__)
        if want:
            c.check(st == "err", "a token was made of a claim set that has meanwhile faults %s" % want, **info)
            c.count("later:refused")
        else:
            c.check(st == "ok", "a token was refused for a claim set without fault", error=repr(got), **info)
            c.count("later:accepted")

    def all_layers(self, claims, now, nsec, zone):
        for layer in self.layers:
            self.one(layer, claims, now, nsec, zone)


BAD_ANY = [True, False, 0.5, 1.5, 1e10, 0.0, "", "0", "1", "9999999999", [], [1], {}, {"a": 1}]
BAD_TEXT = [0, 1, -1, True, False, 0.0, 1.5, [], ["a"], {}, {"a": 1}]
BAD_AUD = [0, 1, True, False, 0.0, 1.5, {}, {"a": 1}, [0], [1], [None], ["a", 1], [1, "a"], ["a", None], [["a"]], [{}], ["a", "b", False], [""] * 3 + [0]]
GOOD_TEXT = ["", "a", "é中", " ", None, "0"]
GOOD_AUD = ["", "a", [], ["a"], ["a", "b"], ["", ""], None, "é"]


def long_aud(rng, bad):
    """Many audiences; a bad list has one item, anywhere, that is not a string."""
    v = [rng.choice(["a", "b", "https://api.example/%d" % i, "é", ""]) for i in range(rng.randint(3, 40))]
    if bad:
        v[rng.choice([0, len(v) - 1, rng.randrange(len(v))])] = rng.choice([0, 1, None, True, 1.5, ["a"], {}])
    return v


def values_for(name, now, rng):
    near = [now + d for d in (-10 ** 9, -86400, -43200, -3600, -61, -60, -59, -2, -1, 0, 1, 2, 59, 60, 61, 3599, 3600, 14400, 43200, 86400, 10 ** 9)]
    return near + [0, -1, 1, 2 ** 31, 2 ** 63, -2 ** 63, 10 ** 30, None]


def run(c):
    clock.require()
    rng = c.rng
    j = Judge(c)
    layers = list(j.layers)
    zones = clock.ZONES
    # 1. every registered time claim at every distance from now, over zones and instants
    instants = INSTANTS + [rng.randrange(10 ** 6, 2 ** 33) for _ in range(c.n(6, 60))]
    for now in instants:
        zs = zones if c.thorough else rng.sample(zones, 4) + ["UTC"]
        for zone in zs:
            nsec = rng.choice([0, 1, 499999999, 500000000, 900000000])
            for name in TIMES:
                for v in values_for(name, now, rng):
                    for layer in (layers if c.thorough else rng.sample(layers, 2)):
                        j.one(layer, {name: v}, now, nsec, zone)
    # exact boundary at every layer, every zone, with sub-second parts
    for zone in zones:
        now = rng.choice(INSTANTS)
        for nsec in (0, 500000000, 900000000):
            for name, v in itertools.product(TIMES, (-1, 0, 1)):
                j.all_layers({name: now + v}, now, nsec, zone)
    # 2. type faults: each alone, at every layer, also together with valid other claims in both orders
    now = 1700000000
    good = {"iss": "i", "sub": "s", "jti": "j", "aud": ["a", "b"], "exp": now + 100, "nbf": now - 1, "iat": now}
    j.all_layers(good, now, 0, "UTC")
    for name in TIMES:
        for bad in BAD_ANY:
            j.all_layers({name: bad}, now, 0, "UTC")
            j.all_layers(dict(good, **{name: bad}), now, 0, rng.choice(zones))
    for name in TEXTS:
        for v in BAD_TEXT + GOOD_TEXT:
            j.all_layers({name: v}, now, 0, "UTC")
            j.all_layers(dict(good, **{name: v}), now, 0, rng.choice(zones))
    for v in BAD_AUD + GOOD_AUD + [long_aud(rng, i % 3) for i in range(c.n(30, 300))]:
        j.all_layers({"aud": v}, now, 0, "UTC")
        j.all_layers(dict(good, aud=v), now, 0, rng.choice(zones))
    for v in BAD_ANY + [0, 1, now, None]:
        for layer in ("id-token", "id-token+nonce"):
            j.one(layer, dict(good, auth_time=v), now, 0, "UTC")
            j.one(layer, {"auth_time": v}, now, 0, "UTC")
            j.one(layer, dict(good, auth_time=v, max_age=rng.choice([0, 1, 3600, 86400])), now, 0, "UTC")
    for age in (0, 1, 60, 3600, 86400):  # a stated max_age needs the time of authentication
        for layer in ("id-token", "id-token+nonce"):
            for extra in ({}, {"auth_time": None}, {"auth_time": 0}, {"auth_time": 1}, {"auth_time": now - 5}, {"auth_time": now}):
                j.one(layer, dict(good, max_age=age, **extra), now, 0, "UTC")
                j.one(layer, dict(extra, max_age=age), now, 0, "UTC")
    # 3. random combinations of good and bad claims, mixed order, with unrelated claims
    for _ in range(c.n(6000, 150000)):
        now = rng.choice(INSTANTS) if rng.random() < 0.5 else rng.randrange(10 ** 6, 2 ** 33)
        d = {}
        names = list(TIMES + TEXTS + ("aud", "auth_time", "extra"))
        rng.shuffle(names)
        pbad = rng.choice([0, 0.05, 0.3])
        for name in names:
            if rng.random() < 0.4:
                continue
            bad = rng.random() < pbad
            if name in TIMES:
                late = name == "exp"
                ok = now + rng.choice([1, 2, 60, 3600, 10 ** 6]) if late else now - rng.choice([0, 1, 60, 3600, now])
                ko = now - rng.choice([0, 1, 60, 3600, now]) if late else now + rng.choice([1, 2, 60, 3600, 10 ** 6])
                d[name] = rng.choice([ko, ko, rng.choice(BAD_ANY)]) if bad else rng.choice([ok, ok, ok, None])
            elif name in TEXTS:
                d[name] = rng.choice(BAD_TEXT) if bad else rng.choice(GOOD_TEXT + [gen.text(rng)])
            elif name == "aud":
                d[name] = long_aud(rng, bad) if rng.random() < 0.3 else rng.choice(BAD_AUD if bad else GOOD_AUD)
            elif name == "auth_time":
                d[name] = rng.choice(BAD_ANY) if bad else now - 5
            else:
                d[name] = gen.json_value(rng, 2)
        j.one(rng.choice(layers), d, now, rng.choice([0, 900000000]), rng.choice(zones))
    # 4. one claim set over a moving clock: valid, then expired (or the reverse), in one process
    for _ in range(c.n(60, 800)):
        start = rng.randrange(10 ** 8, 2 ** 32)
        span = rng.randrange(1, 40)
        d = {"nbf": start + 3, "iat": start + rng.randrange(0, 4), "exp": start + 3 + span}
        layer = rng.choice(layers)
        zone = rng.choice(zones)
        steps = sorted({0, 2, 3, 4, span + 2, span + 3, span + 4, span + 100})
        if rng.random() < 0.3:
            steps.reverse()  # the clock may also be set back
        for s in steps:
            j.one(layer, d, start + s, rng.choice([0, 900000000]), zone)
        c.count("moving-clock-histories")
    # 5. a claim set object made while it was in order, put into a token later
    for _ in range(c.n(400, 6000)):
        start = rng.randrange(10 ** 8, 2 ** 32)
        d = {"iss": "i"}
        for name, v in (("nbf", start - rng.randrange(3)), ("iat", start - rng.randrange(3)), ("exp", start + rng.randrange(1, 50))):
            if rng.random() < 0.7:
                d[name] = v
        t = start + rng.choice([0, 1, 2, 10, 49, 50, 51, 3600, -1, -2, -3, -3600])
        j.later(d, start, t, rng.choice(zones))
    c.require("later:refused", 50)
    c.require("later:accepted", 50)
    c.count("clock-reads", clock.reads())
    for name in ("single-fault:exp:expired", "single-fault:nbf:premature", "single-fault:iat:future", "single-fault:aud:type", "single-fault:iss:type",
                 "single-fault:sub:type", "single-fault:jti:type", "single-fault:exp:type", "single-fault:auth_time:type", "single-fault:auth_time:missing"):
        c.require(name, 10)
    for layer in layers:
        c.require("accepted:" + layer, 10)
    c.require("clock-reads", 100)
