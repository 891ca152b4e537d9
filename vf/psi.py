"""Access to the code under test: public API only."""
from psion.jose import (JsonWebKey, JsonWebKeySet, JsonWebSignature, JsonWebSignatureHeader, JsonWebToken, JsonWebTokenClaims)
from psion.jose import exceptions as jx
from psion.jose.exceptions import JoseError

__all__ = ["JsonWebKey", "JsonWebKeySet", "JsonWebSignature", "JsonWebSignatureHeader", "JsonWebToken", "JsonWebTokenClaims", "JoseError", "jx", "attempt", "jwk"]


def attempt(fn, *a, **k):
    """('ok', value) or ('err', exception). Only Exception is caught."""
    try:
        return "ok", fn(*a, **k)
    except Exception as exc:
        return "err", exc


def jwk(key, private=True, **extra):
    return JsonWebKey(key.jwk(private, **extra))
