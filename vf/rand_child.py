"""Run in a process of its own by C26: produces codes, tokens and keys in an environment where everything but the kernel's randomness is fixed."""
import ctypes
import json
import os
import sys

MODE = sys.argv[1]
ADDR_NO_RANDOMIZE = 0x0040000
lib = ctypes.CDLL(None)
if os.environ.get("VF_NO_ASLR") != "1":
    os.environ["VF_NO_ASLR"] = "1"
    try:
        lib.personality(ADDR_NO_RANDOMIZE)
    except Exception:
        pass
    os.execv(sys.executable, [sys.executable] + sys.orig_argv[1:])
lib.vclock_set.argtypes = [ctypes.c_longlong, ctypes.c_long]
lib.vrand_bytes.restype = ctypes.c_ulonglong

lib.vclock_set(1700000000, 12345)
lib.vclock_all(1)
lib.vrand_pid(4242)
sys.path.insert(0, os.path.join(os.environ["VF_REPO"], "src"))
import random  # noqa: E402
import uuid  # noqa: E402
from vf import oauth as O  # noqa: E402
from psion.jose import JsonWebKey  # noqa: E402
from psion.webtools import secret_token  # noqa: E402

O.NOISY[0] = False  # the harness itself draws nothing while it is measured

uuid._node = 0x123456789ABC
lib.vrand_real()


def site():
    s = O.Store("r")
    u = s.add(O.User("u"))
    cl = s.add(O.Client("c", "sec", "client_secret_basic", ["a"], ["https://c.example/cb"], ["authorization_code"]))
    return s, O.provider(s, ["a"]), u


def code(p, u):
    r = O.req(query={"response_type": "code", "client_id": "c", "redirect_uri": "https://c.example/cb", "scope": "a", "state": "st", "code_challenge": "v" * 43, "code_challenge_method": "plain"}, user=u)
    return dict(O.Reply(O.run(p.authorize(r))).params())["code"]


def d_of(k):
    return k.dump(public=False)["d"]


def values(p, u, slow):
    out = {"code": code(p, u), "code2": code(p, u), "token": secret_token(), "token64": secret_token(64), "token20": secret_token(20), "oct": JsonWebKey.generate("oct", 32).dump(public=False)["k"]}
    for crv in ("P-256", "P-384", "P-521"):
        out["EC " + crv] = d_of(JsonWebKey.generate("EC", crv))
    if slow:
        out["RSA"] = JsonWebKey.generate("RSA", 2048).dump(public=True)["n"]
    return out


def reseed():
    random.seed(7)
    random.setstate(random.getstate())


if MODE == "values":
    s, p, u = site()
    reseed()
    res = values(p, u, os.environ.get("VF_SLOW") == "1")
elif MODE == "reseed":
    s, p, u = site()
    res = []
    for _ in range(4):
        reseed()
        res.append(values(p, u, False))
elif MODE == "fork":
    s, p, u = site()
    warm = values(p, u, False)
    kids = []
    for i in range(6):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code_ = 1
            try:
                os.write(w, json.dumps(values(p, u, False)).encode())
                code_ = 0
            finally:
                os._exit(code_)
        os.close(w)
        kids.append((pid, r))
    res = [warm]
    for pid, r in kids:
        data = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.waitpid(pid, 0)
        os.close(r)
        res.append(json.loads(data))
    res.append(values(p, u, False))
elif MODE == "entropy":
    s, p, u = site()
    opened, rand_bytes, mersenne = [], [0], [0]
    sys.addaudithook(lambda ev, args: opened.append(args[0]) if ev == "open" and isinstance(args[0], (str, bytes)) and "random" in str(args[0]) and "/dev/" in str(args[0]) else None)

    def prof(frame, event, arg):
        if event == "c_call":
            me = getattr(arg, "__self__", None)
            if isinstance(me, random.Random) and not isinstance(me, random.SystemRandom) and arg.__name__ in ("getrandbits", "random", "seed"):
                mersenne[0] += 1
            if "rand_bytes" in arg.__name__.lower():
                rand_bytes[0] += 1

    def measure(fn, n):
        fn()
        del opened[:]
        rand_bytes[0] = mersenne[0] = 0
        b = lib.vrand_bytes()
        sys.setprofile(prof)
        try:
            for _ in range(n):
                fn()
        finally:
            sys.setprofile(None)
        return {"bytes": lib.vrand_bytes() - b, "n": n, "dev": len(opened), "rand_bytes": rand_bytes[0], "mersenne": mersenne[0]}

    res = {"code": measure(lambda: code(p, u), 400), "token64": measure(lambda: secret_token(64), 400), "token20": measure(lambda: secret_token(20), 400), "oct32": measure(lambda: JsonWebKey.generate("oct", 32), 400), "oct100": measure(lambda: JsonWebKey.generate("oct", 100), 400)}
    # the accounting itself
    b = lib.vrand_bytes()
    os.urandom(1000)
    res["self"] = lib.vrand_bytes() - b
    n0 = [0]
    mersenne[0] = 0
    sys.setprofile(prof)
    random.choice("abc")
    sys.setprofile(None)
    res["self_mersenne"] = mersenne[0]
print(json.dumps({"res": res, "aslr_off": "1"}))
sys.stdout.flush()
os._exit(0)
