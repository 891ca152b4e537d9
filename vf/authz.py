"""Authorization endpoint: reading redirects, and an executable specification of the request's faults."""
import urllib.parse as up

ASCII_OK = set(map(chr, range(0x21, 0x7F)))


def target(location, uri):
    """The parameters added to `uri` if `location` is `uri` plus a query component, else None."""
    if not isinstance(location, str) or not location.startswith(uri):
        return None
    rest = location[len(uri):]
    if rest == "":
        return []
    if "?" in uri:
        if rest[0] == "&":
            rest = rest[1:]
        elif uri[-1] not in "?&":
            return None
    else:
        if rest[0] != "?":
            return None
        rest = rest[1:]
    if "#" in rest:
        return None
    return up.parse_qsl(rest, keep_blank_values=True, strict_parsing=False)


def where(location, registered, error_url):
    """('uri', uri, params) | ('error', None, params) | ('elsewhere', location, None); the longest match counts."""
    best = None
    for u in registered:
        t = target(location, u)
        if t is not None and (best is None or len(u) > len(best[1])):
            best = ("uri", u, t)
    t = target(location, error_url)
    if t is not None and (best is None or len(error_url) > len(best[1])):
        return ("error", None, t)
    return best or ("elsewhere", location, None)


def merged(query, form):
    """The request's parameters: non-blank, form over query (duplicates are never used where this is relied on)."""
    out = {}
    for pairs in (query or [], form or []):
        for k, v in (pairs.items() if isinstance(pairs, dict) else pairs):
            if v:
                out[k] = v
    return out


def faults(params, user, store, supported):
    """All faults of an authorization request, as (name, acceptable error codes); empty means a code is due."""
    out = []
    client = store.clients.get(params.get("client_id", ""))
    if client is None:
        return [("client", None)]
    if params.get("redirect_uri") is None or params["redirect_uri"] not in client.uris:
        return [("uri", None)]
    if user is None:
        out.append(("user", {"access_denied"}))
    rt = params.get("response_type")
    if rt is None:
        out.append(("no-response-type", {"invalid_request", "unsupported_response_type"}))
    elif rt != "code":
        out.append(("response-type", {"unsupported_response_type"}))
    if rt == "code" and "code" not in client.responses:
        out.append(("client-response-type", {"unauthorized_client"}))
    ch = params.get("code_challenge")
    if ch is None or not 43 <= len(ch) <= 128:
        out.append(("challenge", {"invalid_request"}))
    if params.get("code_challenge_method") not in ("plain", "S256"):
        out.append(("method", {"invalid_request"}))
    sc = params.get("scope")
    if sc is None:
        out.append(("no-scope", {"invalid_request", "invalid_scope"}))
    else:
        names = sc.split()
        if any(s not in supported for s in names):
            out.append(("unsupported-scope", {"invalid_scope"}))
        elif any(s not in client.scopes for s in names):
            out.append(("scope", {"invalid_scope"}))
    return out


def uri_variants(u):
    """URIs that some notion of equivalence or hierarchy would confuse with `u`."""
    out = []
    try:
        p = up.urlsplit(u)
    except ValueError:
        return out
    host, port, info = p.netloc.rpartition("@")[2], "", p.netloc.rpartition("@")[0]
    if host.startswith("["):
        host, _, rest = host.partition("]")
        host += "]"
        port = rest.lstrip(":")
    elif ":" in host:
        host, port = host.split(":", 1)

    def make(scheme=p.scheme, host=host, port=port, info=info, path=p.path, query=p.query, fragment=p.fragment):
        n = (info + "@" if info else "") + host + (":" + port if port else "")
        out.append(up.urlunsplit((scheme, n, path, query, fragment)))
    if host:
        for x in ("", "80", "443", "1", "8080", "9000", "65535", "51004"):
            make(port=x)
        for x in (host.upper(), host.title(), "sub." + host, "evil-" + host, host + ".", host + ".evil.example", host.split(".", 1)[-1], "*." + host, "www." + host, "xn--" + host):
            make(host=x)
        for x in ("localhost", "127.0.0.1", "[::1]", "127.1", "0.0.0.0", "[::ffff:127.0.0.1]", "10.0.0.1"):
            for y in ("", port, "12345"):
                make(host=x, port=y)
        for x in ("user", "user:pw", "client.example", "evil.example"):
            make(info=x)
        make(info="")
    for x in ("http", "https", "HTTP", "ftp", "javascript", "app", p.scheme.upper(), p.scheme.title(), p.scheme + "s", ""):
        make(scheme=x)
    path = p.path
    for x in (path + "/", path.rstrip("/"), path + "x", path + "/x", path + "/.", path + "/..", "/." + path, "/x/.." + path, path.upper(), path.title(), path.swapcase(), "/" + path, path.replace("/", "//"),
              path.rsplit("/", 1)[0], path.rsplit("/", 1)[0] + "/", path.rsplit("/", 1)[0] + "/other", "", "/", path + ";p", path + "%20", path + "%2F", path + "*", path[:-1], path[:-1] + "*", up.quote(path, safe=""),
              up.unquote(path), path.replace("cb", "%63b"), path + "\\", path.replace("/", "\\")):
        make(path=x)
    q = p.query
    for x in ("", "x=1", q + "&evil=1", "evil=1&" + q, "&".join(reversed(q.split("&"))), q.upper(), q + "&", "&" + q, up.unquote(q), q.replace("=", "=="), q.replace("1", "2"), q.replace("%20", "+"), "code=x", "state=x", "error=x"):
        make(query=x)
    for x in ("f", "code=x", "/"):
        make(fragment=x)
    return [x for x in dict.fromkeys(out) if x != u]
