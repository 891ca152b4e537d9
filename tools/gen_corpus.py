#!/opt/venv/bin/python
"""Offline generator of vf/data/keys.json (keys with special octet patterns). Committed output; not run by checks."""
import json, os, random
from cryptography.hazmat.primitives.asymmetric import ec, rsa
from cryptography.hazmat.primitives import serialization as s
from cryptography.hazmat.backends import default_backend
B = default_backend()
out = {"EC": {}, "RSA": []}
rng = random.Random(20240)
for name, curve, size in (("P-256", ec.SECP256R1(), 32), ("P-384", ec.SECP384R1(), 48), ("P-521", ec.SECP521R1(), 66)):
    want = {"x0": None, "y0": None, "d0": None, "xy0": None, "x00": None, "plain": None, "plain2": None, "xhi": None, "y00": None}
    bits = curve.key_size
    tries = 0
    order_bits = bits - 1
    while any(v is None for k, v in want.items() if k not in ("xy0",)) or (want["xy0"] is None and tries < 250000):
        tries += 1
        d = rng.getrandbits(order_bits) | 1
        n = ec.derive_private_key(d, curve, B).public_key().public_numbers()
        lim = 1 << (bits - 8) if bits != 521 else 1 << 512
        x0, y0 = n.x < lim, n.y < lim
        def put(k):
            if want[k] is None: want[k] = d
        if x0 and y0: put("xy0")
        if x0: put("x0")
        if y0: put("y0")
        if n.x < (lim >> 8): put("x00")
        if n.y < (lim >> 8): put("y00")
        if not x0 and not y0 and d >= lim:
            put("plain2" if want["plain"] is not None else "plain")
        if n.x >> (bits - 4) >= 8: put("xhi")
        if want["d0"] is None: want["d0"] = (d % lim)
    want["one"] = 1; want["two"] = 2
    out["EC"][name] = {k: str(v) for k, v in want.items() if v is not None}
    print(name, tries, list(out["EC"][name]))
def blen(x): return (x.bit_length() + 7) // 8
def add(tag, k):
    n = k.private_numbers()
    out["RSA"].append({"tag": tag, **{a: str(b) for a, b in dict(n=n.public_numbers.n, e=n.public_numbers.e, d=n.d, p=n.p, q=n.q, dp=n.dmp1, dq=n.dmq1, qi=n.iqmp).items()}})
for size, cnt in ((1024, 2), (2048, 4), (3072, 1), (4096, 1), (1032, 1), (2050, 1)):
    for i in range(cnt): add("%d" % size, rsa.generate_private_key(65537, size, B))
add("e3", rsa.generate_private_key(3, 2048, B))
need = {"d", "dp", "dq", "qi"}
while need:
    k = rsa.generate_private_key(65537, 1024, B); n = k.private_numbers()
    for f, v, full in (("d", n.d, 128), ("dp", n.dmp1, 64), ("dq", n.dmq1, 64), ("qi", n.iqmp, 64)):
        if f in need and blen(v) < full:
            need.discard(f); add("short-" + f, k)
json.dump(out, open(os.path.join(os.path.dirname(__file__), "..", "vf/data/keys.json"), "w"), indent=1)
