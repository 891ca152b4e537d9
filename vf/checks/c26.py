"""C26: codes and generated secrets are unpredictable and never repeat."""
import asyncio
import base64
import json
import math
import os
import subprocess
import sys
import threading

from vf import core
from vf import oauth as O
from vf.psi import JsonWebKey

from psion.webtools import secret_token

RULE = ("Codes issued by the authorization endpoint (many clients, users, parameters, grants, concurrent requests, threads), tokens of every length and generated oct, EC and RSA keys: length and alphabet, global uniqueness, per-position "
        "chi-square, dependence between positions, and between parts of long tokens. Child processes in which wall and monotonic clocks, process IDs, hash seed, address layout, MAC address and the start-up kernel randomness are fixed and the "
        "standard generator reseeded are run repeatedly and forked: their values must differ. The kernel randomness (interposed getrandom) and standard-generator draws per value are counted. A case is one generated value.")

ALPHABET = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"
INDEX = {ch: i for i, ch in enumerate(ALPHABET)}
Z = 8.0          # one-sided normal quantile of every statistical test: p < 1e-15 each


def chi_limit(df):
    """Wilson-Hilferty upper quantile at Z."""
    a = 2.0 / (9.0 * df)
    return df * (1 - a + Z * math.sqrt(a)) ** 3


def chi(counts, n):
    e = n / len(counts)
    return sum((x - e) ** 2 for x in counts) / e


def tail_limit(n, p, nats=36.0):
    """Smallest k > np for which the Chernoff bound on P(X >= k) is below exp(-nats)."""
    k = int(n * p) + 1
    while k <= n:
        q = k / n
        d = q * math.log(q / p) + ((1 - q) * math.log((1 - q) / (1 - p)) if q < 1 else 0)
        if n * d > nats:
            return k
        k += 1
    return n + 1


class Unique:
    def __init__(self, c):
        self.c, self.seen = c, {}

    def add(self, value, where):
        if value in self.seen:
            self.c.fail("a generated value was produced twice", value=value, first=self.seen[value], again=where)
        self.seen[value] = where


def shape(c, value, size, what):
    ok = isinstance(value, str) and len(value) == size and all(ch in INDEX for ch in value)
    c.check(ok, "%s does not have the requested length and alphabet" % what, value=value, size=size)
    return ok


def uniform(c, rows, size, what, rng, k=64):
    """Every position uniform over k symbols, positions independent (rows: lists of ints)."""
    n = len(rows)
    counts = [0] * k
    for r in rows:
        for v in r:
            counts[v] += 1
    x = chi(counts, n * size)
    c.check(x < chi_limit(k - 1), "symbols of %s are not uniform (chi-square %.0f, limit %.0f)" % (what, x, chi_limit(k - 1)), never=[j for j in range(k) if not counts[j]], values=n)
    for i in range(size):
        counts = [0] * k
        for r in rows:
            counts[r[i]] += 1
        x = chi(counts, n)
        c.count("chi-square-tests")
        if not c.check(x < chi_limit(k - 1), "position %d of %s is not uniform (chi-square %.0f, limit %.0f)" % (i, what, x, chi_limit(k - 1)), never=[j for j in range(k) if not counts[j]], values=n):
            return
    pairs = [(i, j) for i in range(size) for j in range(i)]
    chosen = pairs if len(pairs) <= 200 else rng.sample(pairs, 200 if not c.thorough else min(len(pairs), 2016))
    # neighbours and halves are the likely dependences
    chosen = set(chosen) | {(i + 1, i) for i in range(size - 1)} | {(i + size // 2, i) for i in range(size - size // 2)} | {(size - 1 - i, i) for i in range(size // 2)}
    for i, j in chosen:
        counts = [0] * k
        for r in rows:
            counts[(r[i] - r[j]) % k] += 1
        x = chi(counts, n)
        c.count("dependence-tests")
        if not c.check(x < chi_limit(k - 1), "positions %d and %d of %s depend on each other (chi-square %.0f)" % (i, j, what, x), values=n):
            return
    # consecutive values
    for i in range(size):
        same = sum(1 for a, b in zip(rows, rows[1:]) if a[i] == b[i])
        c.check(same < tail_limit(n - 1, 1 / k), "position %d of consecutive %s agrees too often" % (i, what), agree=same, values=n)


def lags(c, row, what, k=64):
    """No part of one long value repeats another part."""
    n = len(row)
    for lag in range(1, n // 2 + 1):
        m = n - lag
        same = sum(1 for a, b in zip(row, row[lag:]) if a == b)
        c.count("lag-tests")
        if not c.check(same < tail_limit(m, 1 / k), "%s repeats itself at distance %d" % (what, lag), agree=same, of=m):
            return
    # and no symbol dominates
    for s in set(row):
        c.check(row.count(s) < tail_limit(n, 1 / k), "symbol %r dominates %s" % (s, what), count=row.count(s), size=n)


class Derived(O.AuthorizationCodeGrant):
    __response_type__ = "derived"
    __grant_type__ = "derived_code"


def sites(rng):
    out = []
    for i in range(3):
        s = O.Store("s%d" % i)
        for u in ("u1", "u2"):
            s.add(O.User(u))
        for cid in ("c1", "c2"):
            s.add(O.Client(cid, "sec", "client_secret_basic", ["a", "b", "openid"], ["https://c.example/cb"], ["authorization_code", "derived_code"], ("code", "derived")))
        out.append((s, O.provider(s, ["a", "b", "openid"], grants=[O.AuthorizationCodeGrant, Derived], oidc=i == 1)))
    return out


def request(rng, s):
    q = {"response_type": rng.choice(["code", "code", "derived"]), "client_id": rng.choice(["c1", "c2"]), "redirect_uri": "https://c.example/cb", "scope": rng.choice(["a", "a b", "openid"]), "code_challenge": O.verifier(rng, 43), "code_challenge_method": rng.choice(["plain", "S256"])}
    if rng.random() < 0.7:
        q["state"] = rng.choice(["s", O.verifier(rng, 43)])
    if rng.random() < 0.5:
        q["nonce"] = O.verifier(rng, 43)
    return O.req(query=q, user=s.users[rng.choice(["u1", "u2"])])


def code_of(c, rep, s):
    code = dict(rep.params()).get("code")
    if code is None:
        raise core.Violated("no code for a valid request: %r" % rep)
    c.check(code in s.codes, "the code in the response is not the one stored", code=code)
    return code


def child(mode, **env):
    e = {k: v for k, v in os.environ.items() if k != "VF_NO_ASLR"}
    e.update(VF_REPO=core.REPO, PYTHONHASHSEED="0", PYTHONPATH=core.VERIF, LD_PRELOAD=os.path.join(core.VERIF, "build", "vclock.so"), VF_WEAK_START="1", PYTHONDONTWRITEBYTECODE="1")
    e.update(env)
    r = subprocess.run([sys.executable, "-W", "ignore", "-m", "vf.rand_child", mode], cwd=core.VERIF, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if r.returncode != 0:
        text = r.stderr.decode("utf-8", "replace")[-3000:]
        if os.path.join(core.REPO, "src", "psion") in text:
            raise core.Violated("generating values failed in a child process: " + text)
        raise core.Inconclusive("child process failed: " + text)
    return json.loads(r.stdout)["res"]


def run(c):
    rng = c.sub_rng("main")
    uniq = Unique(c)

    # ---- shape, for all lengths
    for size in list(range(1, 301)) + [rng.randrange(301, 3000) for _ in range(c.n(10, 100))]:
        t = secret_token(size)
        c.case("token-length", (size, t), sample=t)
        if shape(c, t, size, "a token") and size >= 24:
            uniq.add(t, "secret_token(%d)" % size)
            if size >= 40:
                lags(c, [INDEX[ch] for ch in t], "a token of %d characters" % size)
    t = secret_token()
    c.check(len(t) == 32, "the default token does not have 32 characters", token=t)

    # ---- codes through the endpoint
    st = sites(rng)
    rows = []
    n = c.n(6000, 40000)
    for i in range(n):
        s, p = rng.choice(st)
        code = code_of(c, O.Reply(O.run(p.authorize(request(rng, s)))), s)
        c.case("code", code, sample=code)
        uniq.add(code, "authorization endpoint")
        if shape(c, code, 64, "an authorization code"):
            rows.append([INDEX[ch] for ch in code])
    uniform(c, rows, 64, "authorization codes", rng)

    async def together():
        jobs = []
        for _ in range(60):
            s, p = rng.choice(st)
            jobs.append((s, p.authorize(request(rng, s))))
        return list(zip([s for s, _ in jobs], await asyncio.gather(*(j for _, j in jobs))))

    for _ in range(c.n(10, 60)):
        for s, r in O.run(together()):
            code = code_of(c, O.Reply(r), s)
            c.case("concurrent-code", code)
            uniq.add(code, "concurrent requests")
            shape(c, code, 64, "an authorization code")

    # ---- tokens
    for size in (64, 32, 43):
        rows = []
        for i in range(c.n(6000, 40000)):
            t = secret_token(size)
            c.case("token", t)
            uniq.add(t, "secret_token(%d)" % size)
            if shape(c, t, size, "a token"):
                rows.append([INDEX[ch] for ch in t])
        uniform(c, rows, size, "tokens of %d characters" % size, rng)

    # ---- oct keys
    for size in list(range(32, 140)) + [255, 256, 257, 512, 513, 1000, 1024, 1025, 4096, 10001]:
        k = base64.urlsafe_b64decode(JsonWebKey.generate("oct", size).dump(public=False)["k"] + "===")
        c.case("oct-length", k)
        c.check(len(k) == size, "a generated secret does not have the requested length", size=size, got=len(k))
        uniq.add(k, "oct %d" % size)
        lags(c, list(k), "a secret of %d bytes" % size, 256)
    rows = []
    for i in range(c.n(8000, 30000)):
        k = base64.urlsafe_b64decode(JsonWebKey.generate("oct", 32).dump(public=False)["k"] + "===")
        c.case("oct", k)
        uniq.add(k, "oct 32")
        rows.append(list(k))
    uniform(c, rows, 32, "generated secrets", rng, 256)

    # ---- EC and RSA keys
    for crv, bits in (("P-256", 256), ("P-384", 384), ("P-521", 521)):
        bitsum = 0
        for i in range(c.n(200, 1500)):
            d = JsonWebKey.generate("EC", crv).dump(public=False)["d"]
            c.case("EC", (crv, d))
            uniq.add(d, "EC " + crv)
            v = int.from_bytes(base64.urlsafe_b64decode(d + "==="), "big")
            c.check(v.bit_length() > bits - 56, "a generated EC key is far too small", curve=crv, bits=v.bit_length())
            bitsum += bin(v).count("1")
        m = c.n(200, 1500) * (bits - 1)
        c.check(abs(bitsum - m / 2) < Z * math.sqrt(m) / 2 + c.n(200, 1500), "bits of generated EC keys are biased", ones=bitsum, of=m)
    mods = []
    for size in [2048] * c.n(2, 8):
        nn = int.from_bytes(base64.urlsafe_b64decode(JsonWebKey.generate("RSA", size).dump(public=True)["n"] + "==="), "big")
        c.case("RSA", nn)
        uniq.add(nn, "RSA")
        c.check(nn.bit_length() == size, "a generated RSA key does not have the requested size", bits=nn.bit_length())
        c.check(all(math.gcd(nn, m) == 1 for m in mods), "generated RSA keys share a prime", n=nn)
        mods.append(nn)

    # ---- threads
    got, errors = [], []

    def worker():
        try:
            loop = asyncio.new_event_loop()
            s = O.Store("t")
            s.add(O.User("u1"), O.User("u2"))
            for cid in ("c1", "c2"):
                s.add(O.Client(cid, "sec", "client_secret_basic", ["a", "b", "openid"], ["https://c.example/cb"], ["authorization_code"], ("code", "derived")))
            p = O.provider(s, ["a", "b", "openid"], grants=[O.AuthorizationCodeGrant, Derived])
            mine = []
            r2 = __import__("random").Random(1)
            for _ in range(150):
                mine.append(secret_token(24))
                mine.append(dict(O.Reply(loop.run_until_complete(p.authorize(request(r2, s)))).params())["code"])
                mine.append(JsonWebKey.generate("oct", 32).dump(public=False)["k"])
            got.extend(mine)
            loop.close()
        except Exception as exc:
            errors.append(exc)

    ths = [threading.Thread(target=worker) for _ in range(8)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errors:
        raise errors[0]
    for v in got:
        c.case("threads", v)
        uniq.add(v, "threads")

    # ---- restarts at the same instant
    runs = [child("values", VF_SLOW="1" if i < c.n(2, 6) else "0") for i in range(c.n(3, 12))]
    runs += [child("values", VF_WEAK_START="0")]
    for i, r in enumerate(runs):
        for what, v in r.items():
            c.case("restart", v, sample=(what, v))
            c.count("restart-values")
            uniq.add(v, "restart %d: %s" % (i, what))
    # ---- standard generator reseeded, processes forked
    for mode in ("reseed", "fork"):
        for rep in range(c.n(2, 8)):
            for i, r in enumerate(child(mode)):
                for what, v in r.items():
                    c.case(mode, v, sample=(what, v))
                    c.count(mode + "-values")
                    uniq.add(v, "%s %d/%d: %s" % (mode, rep, i, what))
    # ---- where the randomness comes from
    e = child("entropy")
    for what, need in (("code", 48), ("token64", 48), ("token20", 15), ("oct32", 32), ("oct100", 100)):
        m = e[what]
        c.case("entropy", (what, m["bytes"]), sample=(what, m))
        c.count("kernel-random-bytes:" + what, m["bytes"])
        c.check(m["mersenne"] == 0, "a generated value uses the standard (predictable) generator", what=what, measured=m)
        if not m["dev"] and not m["rand_bytes"]:
            c.check(m["bytes"] >= 0.5 * need * m["n"], "generated values take too little randomness from the operating system", what=what, measured=m)
    if e["self"] != 1000 or e["self_mersenne"] < 1:
        raise core.Inconclusive("the accounting of randomness does not work here: %r" % ((e["self"], e["self_mersenne"]),))
    c.require("restart-values", 30)
    c.require("fork-values", 100)
    c.require("reseed-values", 60)
    c.require("chi-square-tests", 200)
