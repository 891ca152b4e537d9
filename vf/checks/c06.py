"""C06: every declared claim expectation is enforced, in any combination and order."""
import copy
import itertools
import json
import time

from vf import gen, keys, refjose as R
from vf.psi import JsonWebToken, JsonWebTokenClaims, attempt, jwk
from psion.oidc.claims import IDToken

SCALE = 3
RULE = ("Option sets over one to six claims (essential, value, values, and their combinations, including falsy expected values) in every order are given with "
        "generated claims to the claim set, the decoder and the ID Token; the accept/refuse outcome is compared with an executable specification evaluated "
        "independently per option. A case is one (claims, ordered options, layer); options are all unmet, exactly one unmet, or all met.")

# pairwise distinct under Python equality, so that the specification has one reading
ATOMS = ["a", "b", "A", "", " ", "aa", "None", "0", 0, 1, 2, -1, 2.5, 10 ** 20, "é", "e\u0301"]
BOOLS = [True, False]
COMPOUND = [[], ["a"], ["a", "b"], ["b", "a"], ["c"], {}, {"x": 1}, {"x": "a"}]


def same(a, b):
    """JSON equality (types are never mixed in the workload)."""
    return type(a) is type(b) and json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def unmet(claims, options):
    out = []
    for name, opt in options.items():
        v = claims.get(name)
        if opt.get("essential") and v is None:
            out.append(name + ":essential")
        if opt.get("value") is not None and not same(v, opt["value"]):
            out.append(name + ":value")
        if opt.get("values"):
            ok = any(same(v, x) for x in opt["values"])
            if not ok and isinstance(v, list):
                ok = any(same(i, x) for i in v for x in opt["values"])
            if not ok:
                out.append(name + ":values")
    return out


class Judge:
    def __init__(self, c):
        self.c = c
        self.key = keys.seeded_oct(c.rng)
        self.jk = jwk(self.key)
        self.ec = keys.corpus_ec("P-256")[0]
        self.jec = jwk(self.ec)
        self.hrng = c.sub_rng("headers")
        self.layers = {
            "claims": lambda d, o: JsonWebTokenClaims(d, o),
            "decode": lambda d, o: self.decode(d, o).claims,
            "decode-text": lambda d, o: JsonWebToken.decode(self.signed(d).decode(), self.jk, options=o).claims,
        }

    def decode(self, d, o):
        if self.hrng.random() < 0.05:
            return JsonWebToken.decode(R.sign_token(dict(self.hrng.choice(R.HEADERS), alg="ES256"), json.dumps(d).encode(), self.ec), self.jec, options=o)
        return JsonWebToken.decode(self.signed(d), self.jk, "HS256", True, o)

    def signed(self, d):
        return R.sign_token(dict(self.hrng.choice(R.HEADERS), alg="HS256"), json.dumps(d).encode(), self.key)

    def one(self, layer, claims, options):
        c = self.c
        bad = unmet(claims, options)
        snap = copy.deepcopy(options)
        st, got = attempt(self.layers[layer], claims, options)
        c.case(layer, (json.dumps(claims, sort_keys=True), json.dumps(list(options.items()))), sample="claims=%r options=%r -> %s" % (claims, options, bad or "accept"))
        info = dict(layer=layer, claims=claims, options=snap)
        c.check(options == snap, "the caller's options were modified", **info)
        if bad:
            c.check(st == "err", "accepted although these expectations are not met: %s" % bad, **info)
            if len(bad) == 1:
                pos = list(options).index(bad[0].rsplit(":", 1)[0])
                c.count("one-unmet:%s:position-%d-of-%d" % (bad[0].rsplit(":", 1)[1], pos + 1, len(options)))
                c.count("one-unmet:" + bad[0].rsplit(":", 1)[1])
        else:
            if c.check(st == "ok", "refused although every expectation is met", error=repr(got), **info):
                c.check(dict(got) == {k: v for k, v in claims.items() if v is not None}, "accepted claims differ from those given", got=dict(got), **info)
            c.count("accepted:" + layer)

    def orders(self, layer, claims, options):
        items = list(options.items())
        if len(items) <= 4:
            perms = itertools.permutations(items)
        else:
            perms = [self.c.rng.sample(items, len(items)) for _ in range(12)]
        for p in perms:
            self.one(layer, claims, dict(p))


NAMES = ["a", "b", "c", "d", "e", "f", "iss", "sub", "jti", "nonce", "essential", "value", "values", "acr", "é", "z z"]


def pick(rng):
    r = rng.random()
    if r < 0.6:
        return rng.choice(ATOMS)
    if r < 0.7:
        return rng.choice(["v%d" % rng.randrange(6), rng.randrange(3, 9)])
    if r < 0.85:
        return copy.deepcopy(rng.choice(COMPOUND))
    return None


def distinct(rng, v, n):
    """n values different from v (no bool/int/float mixing with it)."""
    out = []
    while len(out) < n:
        x = pick(rng)
        if x is not None and not same(x, v) and not (isinstance(v, list) and any(same(i, x) for i in v)) and x not in out:
            out.append(x)
    return out


def option(rng, v, met):
    """An option that is met (or not met) by the claim value v (None: absent)."""
    kinds = []
    if met:
        kinds.append({})
        kinds.append({"essential": False})
        if v is not None:
            kinds += [{"essential": True}, {"value": copy.deepcopy(v)}, {"essential": True, "value": copy.deepcopy(v)}]
            vals = distinct(rng, v, rng.randrange(0, 4))
            vals.insert(rng.randint(0, len(vals)), copy.deepcopy(v))
            kinds += [{"values": vals}, {"essential": True, "values": list(vals)}, {"value": copy.deepcopy(v), "values": list(vals)}]
            if isinstance(v, list) and v:
                sh = distinct(rng, v, rng.randrange(0, 3))
                sh.insert(rng.randint(0, len(sh)), rng.choice(v))
                kinds += [{"values": sh}, {"values": list(sh), "essential": True}] * 2
            kinds += [{"value": None, "essential": True}, {"value": None}]
        return rng.choice(kinds)
    if v is None:
        kinds += [{"essential": True}, {"essential": True, "value": pick(rng)}, {"essential": True, "values": distinct(rng, None, 2)}]
        kinds += [{"value": distinct(rng, None, 1)[0]}, {"values": distinct(rng, None, 2)}]
    else:
        w = distinct(rng, v, 1)[0]
        vals = distinct(rng, v, rng.randrange(1, 4))
        good = vals[:0] + [copy.deepcopy(v)]
        kinds += [{"value": w}, {"essential": True, "value": w}, {"values": vals}, {"essential": True, "values": list(vals)},
                  {"value": w, "values": good}, {"value": copy.deepcopy(v), "values": list(vals)}]
    return rng.choice(kinds)


def run(c):
    rng = c.rng
    j = Judge(c)
    # 1. one claim, one option: all pairs of expected and actual values (bools kept apart from numbers)
    for domain in (ATOMS + COMPOUND, BOOLS + ["", "a", "True", "False", []]):
        for v in domain + [None, "absent"]:
            claims = {"z": "z"}
            if v != "absent":
                claims["x"] = v
            for ess in (True, False, None):
                base = {} if ess is None else {"essential": ess}
                j.one("claims", claims, {"x": dict(base)})
                for w in domain:
                    j.one("claims", claims, {"x": dict(base, value=w)})
                    j.one("claims", claims, {"x": dict(base, values=[w])})
                    j.one("decode" if ess else "decode-text", claims, {"x": dict(base, value=w, values=[w, "qq"])})
                    j.one("claims", claims, {"x": dict(base, values=["qq", w])})
    # 2. several options: all met, or exactly one not met at each position, in every order
    layers = list(j.layers)
    for _ in range(c.n(500, 12000)):
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
        names = rng.sample(NAMES, n)
        claims = {"zz": 1}
        for x in names:
            v = rng.choice(["s%d" % rng.randrange(3), "", "é"]) if x in ("iss", "sub", "jti") else pick(rng)
            if rng.random() < 0.15:
                v = None
            if v is not None or rng.random() < 0.5:
                claims[x] = v
        met = {x: option(rng, claims.get(x), True) for x in names}
        layer = rng.choice(layers)
        j.orders(layer, claims, met)
        for x in names:
            one = dict(met)
            one[x] = option(rng, claims.get(x), False)
            j.orders(rng.choice(layers), claims, one)
        j.one(layer, claims, {x: option(rng, claims.get(x), False) for x in names})
    # 2b. many options, many expected values, long lists
    for _ in range(c.n(60, 1500)):
        n = rng.choice([7, 11, 17, 33, 70])
        claims = {"zz": 1}
        for i in range(n):
            v = pick(rng)
            if v is not None and rng.random() > 0.1:
                claims["n%d" % i] = v
        met = {"n%d" % i: option(rng, claims.get("n%d" % i), True) for i in range(n)}
        j.one(rng.choice(layers), claims, met)
        for _ in range(6):
            x = "n%d" % rng.randrange(n)
            one = dict(met)
            one[x] = option(rng, claims.get(x), False)
            items = list(one.items())
            rng.shuffle(items)
            j.one(rng.choice(layers), claims, dict(items))
        size = rng.choice([9, 17, 40, 120])
        many = ["v%d" % i for i in range(size)]
        for claim in ("v%d" % rng.randrange(size), "v%d" % (size - 1), "v%d" % size, "v", ["x"] * rng.randrange(0, 40) + ["v%d" % (size - 1)], ["x%d" % i for i in range(40)], many, ["V0"]):
            for opts in ({"x": {"values": many}}, {"x": {"essential": True, "values": many[::-1]}}):
                j.one(rng.choice(layers), {"x": claim}, opts)
        c.count("many-options")
    # 3. the audience, a list or a string, and its neighbours
    for aud in ("rs1", ["rs1"], ["rs1", "rs2"], ["x", "rs2"], [], "", ["rs11"], "rs", None):
        for vals in (["rs1"], ["rs2", "rs1"], ["nope"], ["r", "s", "1"], [["rs1"]], [""]):
            for other in ({"iss": {"value": "https://i"}}, {"iss": {"value": "https://j"}}, {"sub": {"essential": True}}, {"nonce": {"value": ""}}, {}):
                claims = {"iss": "https://i", "nonce": "", "zz": 1}
                if aud is not None:
                    claims["aud"] = aud
                opts = {"aud": {"values": vals}}
                opts.update(other)
                for layer in layers:
                    j.orders(layer, claims, opts)
    # 3b. values a sloppy comparison would take for the expected one, alone, in a list claim and among others
    for target in ("https://rs.example/api", "Client-1_a.b", "rs1", "https://e\u0301.example/", "urn:A b+c%20d"):
        for miss in gen.near_misses(target, rng):
            for name in ("aud", "x", "nonce", rng.choice(["iss", "sub", "jti", "azp", "scope", "client_id", "acr", "email"])):
                layer = rng.choice(layers)
                for a, b in ((target, miss), (miss, target)):
                    j.one(layer, {name: a, "zz": 1}, {name: {"value": b}})
                    j.one(layer, {name: a, "zz": 1}, {name: {"values": ["qq", b]}})
                    if name in ("iss", "sub", "jti"):
                        continue          # these must be strings
                    j.one(layer, {name: [a], "zz": 1}, {name: {"values": [b]}})
                    j.one(layer, {name: ["pp", a], "zz": 1}, {name: {"values": [b, "qq"]}})
                    j.one(layer, {name: [a, "pp"], "zz": 1}, {name: {"value": [b, "pp"]}})
                    j.one(layer, {name: {"k": a}, "zz": 1}, {name: {"value": {"k": b}}})
                if name in ("iss", "sub", "jti"):
                    continue
                j.one(layer, {name: [miss, target], "zz": 1}, {name: {"essential": True, "values": [target]}})
                c.count("near-values")
    for name in ("iss", "sub", "jti", "azp", "scope", "client_id", "acr", "email", "exp", "iat", "nbf", "aud"):
        now = int(time.time())
        if name in ("exp", "iat", "nbf"):
            base = now + 5000 if name == "exp" else now - 5000
            pairs = [(base, x) for x in (base + 1, base - 1, str(base), base * 1000, [base], -base)]
        else:
            pairs = [(t, x) for t in ("https://Op.example", "a b") for x in (t + "/", t + " ", t.lower(), t.upper(), t[:-1], t + "#", t + ":443", t.replace("https", "http"), "accounts." + t, "//" + t[8:], t + "\0", [t])]
        for a, b in pairs:
            for x, y in ((a, b), (b, a)):
                if not isinstance(x, type(a)) or name in ("exp", "iat", "nbf") and x != a:
                    continue
                for layer in layers:
                    for opt in ({"value": y}, {"essential": True, "values": [y, "qq"]}, {"values": [y]}):
                        j.one(layer, {name: x, "zz": 1}, {name: opt})
                    c.count("near-registered-claims")
    # 4. ID Token nonce
    nonces = ["n-0S6_WzA2Mj", "a", "0", " ", "é", "e\u0301", gen.text(rng, 5, 30), "x" * 300]
    for n in nonces:
        shared = {"nonce": n}            # an application checks many tokens against the same options
        for got in gen.near_misses(n) + [n, None, 0, True, [n], {"nonce": n}]:
            claims = {"sub": "s"}
            if got is not None:
                claims["nonce"] = got
            st, res = attempt(IDToken, claims, shared if rng.random() < 0.7 else {"nonce": n})
            want = isinstance(got, str) and got == n
            c.case("nonce", (n, repr(got)), sample="expected %r got %r" % (n, got))
            if want:
                c.check(st == "ok", "an ID Token with the expected nonce was refused", nonce=n, error=repr(res))
                c.count("nonce-accepted")
            else:
                c.check(st == "err", "an ID Token with another nonce was accepted", expected=n, got=got)
                c.count("nonce-refused")
            # without an expected nonce, none is enforced
            st, res = attempt(IDToken, claims)
            c.check(st == "ok", "an ID Token was refused for a nonce nobody expects", claims=claims, error=repr(res))
    # 5. the ID Token also enforces ordinary options beside the nonce
    for _ in range(c.n(150, 3000)):
        names = rng.sample(["a", "b", "c", "d"], 2)
        claims = {"zz": 1, "nonce": "N"}
        for x in names:
            v = pick(rng)
            if v is not None:
                claims[x] = v
        for bad in (None, names[0], names[1]):
            opts = {x: option(rng, claims.get(x), x != bad) for x in names}
            items = list(opts.items()) + [("nonce", "N")]
            for p in itertools.permutations(items):
                o = dict(p)
                if rng.random() < 0.3:
                    attempt(IDToken, {"nonce": rng.choice(["N", "M"])}, o)      # another token first
                st, res = attempt(IDToken, claims, o)
                c.case("id-token-options", (json.dumps(claims, sort_keys=True), json.dumps(p)))
                want = not unmet(claims, opts)
                c.check((st == "ok") == want, "ID Token options not enforced as declared", claims=claims, options=dict(p), accepted=st == "ok", error=repr(res))
    # 6. the nonce of an ID Token declared as an ordinary option
    for _ in range(c.n(150, 3000)):
        claims = {"zz": 1, "b": rng.choice(["x", "y"])}
        if rng.random() < 0.8:
            claims["nonce"] = rng.choice(["N", "M", "", "n", "N "])
        opts = {"nonce": rng.choice([{"value": "N"}, {"values": ["M", "N"]}, {"essential": True}, {"essential": True, "value": "N"}, {}]), "b": rng.choice([{"value": "x"}, {}])}
        st, res = attempt(IDToken, claims, opts)
        c.case("nonce-option", (json.dumps(claims), json.dumps(opts)), sample=(claims, opts))
        bad = unmet(claims, opts)
        c.check((st == "ok") == (not bad), "ordinary options for the nonce of an ID Token are not enforced as declared", claims=claims, options=opts, unmet=bad, error=repr(res))
    for k in ("essential", "value", "values"):
        c.require("one-unmet:" + k, 200)
    for layer in layers:
        c.require("accepted:" + layer, 100)
    c.require("nonce-accepted", 5)
    c.require("nonce-refused", 100)
    c.require("many-options", 60)
