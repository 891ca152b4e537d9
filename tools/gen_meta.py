#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json. Run: python3 tools/gen_meta.py"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/psion/"
NO_TESTS = "The repository has no test at all for the OAuth 2.1 / OpenID Connect half; "

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=(), observe=(), level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[S + f for f in files],
                  mechanism=mechanism, technique=technique, note=note, state=list(state), observe=list(observe), level=level))


# ------------------------------------------------------------------ JOSE
prop("C01", "Accepted signed tokens are exactly what the key holder signed",
     "With signature validation on (the default), decoding a JWS or JWT succeeds only if its signature verifies, under the supplied key and the algorithm of its header, over exactly the received header and payload; every alteration, truncation, splice of parts of several tokens, or signature made by another key is refused with an error. (Other base64 spellings of the same signature octets are not judged. Unsecured 'none' tokens are covered by the algorithm policy, C02.) A successful decode returns exactly the signed header and payload. This holds whatever tokens were processed earlier or at the same time, with this key or another.",
     ["inputs", "histories", "schedules"],
     "every key of the three families, every algorithm except 'none', every token string (well signed or not), every history of earlier decodes, and concurrent decodes in several threads",
     "The tests decode one valid HS256 token and never a forged one; integrity is a statement about all non-valid tokens and all histories.",
     ["jose/jws.py", "jose/jwa/jws.py", "jose/jwa/jwk.py", "jose/jwt.py"],
     [("signature verified over received header.payload bytes before the payload is returned", S + "jose/jws.py JsonWebSignature.deserialize"), ("per-algorithm verify", S + "jose/jwa/jws.py"), ("per-key verify", S + "jose/jwa/jwk.py verify")],
     "acceptance monitor against an independent JOSE verifier under mutation, splice and thread-stress workloads",
     "Held on the tokens tried: every decode outcome was judged by an independent verifier (own base64url/JSON/HMAC, raw primitives of the cryptography package). Trusts OpenSSL's primitives. Alternative encodings of the same signature bytes are not judged.")
prop("C02", "Key and algorithm policy is enforced on every sign and verify",
     "When the caller names an expected algorithm, or the key declares one, a token naming any other algorithm (including 'none') is refused, and so is an unsecured token with a non-empty signature. A key signs and verifies only with algorithms of its own key type and curve, only if its ID equals the key ID in the header when the header has one, and only if its declared use and operations are for signatures; a key without its private part never signs. A header without a supported algorithm, with a malformed typ, cty, kid or crit, or listing as critical a parameter that is absent or not implemented, is refused.",
     ["inputs", "configurations"],
     "every combination of header algorithm, expected algorithm, key type, curve, declared alg/kid/use/key_ops and header parameters, for signing and for verifying, with the best signature an attacker can make",
     "The tests only use matching key/algorithm pairs for sign and verify; no negative combination is tried.",
     ["jose/jws.py", "jose/jwa/jws.py"],
     [("expected algorithm comparison", S + "jose/jws.py deserialize"), ("key checks", S + "jose/jws.py _validate_key, " + S + "jose/jwa/jws.py validate_key"), ("header validators", S + "jose/jws.py JsonWebSignatureHeader")],
     "policy monitor: accept/refuse decision of each call compared with an executable policy over the full configuration matrix",
     "Held on the enumerated matrix. Unsecured tokens where nobody pins an algorithm are documented as the caller's risk and not judged.")
prop("C03", "JWS and JWT encode/decode round trips are lossless",
     "For every payload (any bytes), every JSON-representable header and every valid claim set, under every algorithm, serializing and then decoding with the matching key returns the same payload, header and claims (parameters that are None are left out), and decoding with validation switched off returns them under any key. The token is three dot-separated unpadded URL-safe base64 parts. Constructing, encoding and decoding never modify the caller's objects, and later changes to those objects do not change the token (a header object made by the library and handed to a JWS is shared, not copied).",
     ["inputs"],
     "every payload length and content, Unicode and nested JSON in headers and claims, all 12 signing algorithms plus 'none', repeated encodes",
     "One ASCII payload and one fixed token are tested; lengths modulo 4, Unicode, nesting and aliasing are not sampled.",
     ["jose/jws.py", "jose/jwt.py", "webtools.py"],
     [("compact serialization", S + "jose/jws.py serialize/deserialize"), ("base64url and JSON helpers", S + "webtools.py")],
     "round-trip monitor with aliasing probes over generated payloads, headers and claims",
     "Held on the generated payloads (all lengths in a range plus sizes around powers of two), headers and claims.")
prop("C04", "Tokens and keys interoperate with the JOSE RFCs on the wire",
     "Tokens produced under HS/RS/PS/ES 256/384/512 verify with an independent implementation of RFC 7515 and 7518, and tokens produced by one, however their JSON is formatted, are accepted; in particular ES signatures are the fixed-length concatenation of R and S, and PS signatures use a salt as long as the hash. Published keys encode integers as unpadded base64url big-endian octets, of minimal length for RSA and of full field length for EC.",
     ["inputs"],
     "all algorithms, keys (including those with leading zero octets), payloads and JSON formattings, in both directions",
     "The tests verify the library only against itself, so a private dialect passes them.",
     ["jose/jwa/jws.py", "jose/jwa/jwk.py", "webtools.py"],
     [("hash and padding per algorithm", S + "jose/jwa/jws.py"), ("key sign/verify and dump", S + "jose/jwa/jwk.py")],
     "cross-implementation monitor: both directions against an independent RFC 7515/7518 implementation and RFC vectors",
     "Held on the tokens and keys exchanged with the independent implementation; that implementation shares only OpenSSL's primitives with psion.")
prop("C05", "Expired, premature or mistyped JWT claims are always refused",
     "At any moment, in any time zone of the host, a claim set or token whose exp is not later than the current UTC time, whose nbf is later than it, or whose iat is later than it is refused, as is one whose exp, nbf or iat (or auth_time, in an ID Token) is not an integer, whose iss, sub or jti is not a string, or whose aud is not a string or list of strings. So is an ID Token that states a max_age but no auth_time. A claim set without such a fault is accepted, and a null claim counts as absent. This holds when claims are built, when a token is built and when a token is decoded.",
     ["inputs", "configurations"],
     "all values of the registered claims (including 0, false and empty values), all instants including the exact boundary second, all host time zones",
     "The tests sample values one hour away from now, in UTC only, and no falsy values.",
     ["jose/jwt.py"],
     [("default claim validation against the clock", S + "jose/jwt.py JsonWebTokenClaims")],
     "claim-acceptance monitor under a virtual clock (interposed libc time) and changing time zones, against an executable specification",
     "Held on the sampled claim values, instants and zones. The virtual clock is an LD_PRELOAD library built by the check.")
prop("C06", "Every declared claim expectation is enforced",
     "When validation options are given for a token, a claim marked essential must be present, a claim with an expected value must equal it (also when that value is 0, false or empty), and a claim with a list of expected values must be one of them or, when it is itself a list, share an element with it. Every option is enforced whatever the others are and whatever order they are declared in; a token meeting all of them is accepted. An ID Token checked against an expected nonce is accepted only with exactly that nonce.",
     ["inputs", "configurations"],
     "all sets and orders of options over one to many claims, all claim values",
     "No test passes validation options.",
     ["jose/jwt.py", "oidc/claims.py"],
     [("option loop", S + "jose/jwt.py _validate_claims"), ("nonce", S + "oidc/claims.py")],
     "claim-option monitor against an executable specification over generated option sets, orders and claims",
     "Held on the generated option sets; empty lists of expected values are not judged.")
prop("C07", "Keys survive dump, load, export and parse unchanged",
     "For every valid EC, RSA or symmetric key, dumping and reloading it, exporting and parsing it (from bytes or from a file, encrypted or not), and loading and re-dumping a key set give back the same key: identical numbers or secret, and signatures made by one copy verify under the other. Extra parameters such as kid, use and alg are preserved. Generated keys are valid, fresh and of the requested size or curve.",
     ["inputs"],
     "every key, in particular with leading zero octets, any secret bytes and any PEM text, and every chain of conversions",
     "The tests convert one fixed key per family; encodings depend on the key's bytes.",
     ["jose/jwk.py", "jose/jwa/jwk.py", "webtools.py"],
     [("dump/export/parse/generate", S + "jose/jwa/jwk.py"), ("JWK wrapper and key set", S + "jose/jwk.py")],
     "state-equality monitor over random conversion chains of generated keys, against independently loaded key numbers",
     "Held on the keys and conversion chains tried (seeded random keys plus a corpus with special octet patterns).")
prop("C08", "Public views of a key never reveal private material",
     "The public dump of an RSA or EC key (the default), the public dump of a key set, the public PEM export, and any key parsed or reloaded as public contain no private value and cannot sign or be exported as private. This holds whatever operations were performed on the key before. The public view stays sufficient to verify signatures of the private key.",
     ["inputs", "histories"],
     "every private key and every sequence of dump, export, parse, sign, verify and key set operations on it",
     "The tests dump public keys that never had private parts.",
     ["jose/jwk.py", "jose/jwa/jwk.py"],
     [("attribute filtering in dump", S + "jose/jwk.py JsonWebKey.dump"), ("public switch", S + "jose/jwa/jwk.py dump/export")],
     "secrecy monitor: taint scan of every public output for every encoding of each private number, over operation histories",
     "Held on the operation histories tried. Symmetric keys have no public view and are documented to warn; they are outside this property.")
prop("C09", "Invalid keys and key sets are refused",
     "Key data that is not a valid key is refused with an error and never yields a key object: unknown key types or curves, missing parameters or ones of an impossible base64 length, points off the curve, private parts that do not belong to the public part, inconsistent RSA numbers, truncated PEM data or PEM data of another key type, and PEM or SSH encoded asymmetric keys and certificates offered as (base64) symmetric secrets; generating a key below the minimum size (512 bits for RSA, 32 octets for secrets) never yields such a key. A key set with no keys, a non-key, a key without ID or two keys with one ID is refused. Looking up an ID in a key set returns exactly the key with that ID, or nothing.",
     ["inputs", "configurations"],
     "every way to corrupt one or several parameters of a valid key, and every key set composition and lookup ID",
     "The tests try a few constants; corrupted numeric parameters are never tried.",
     ["jose/jwk.py", "jose/jwa/jwk.py"],
     [("constructor checks", S + "jose/jwa/jwk.py"), ("JsonWebKeySet.__init__, get_key", S + "jose/jwk.py")],
     "acceptance monitor over systematically corrupted keys, PEMs and key sets, judged by number-theoretic checks",
     "Held on the corruptions tried.")
prop("C10", "Malformed tokens only ever raise JOSE errors",
     "Decoding any byte string or text as a JWS or JWT, and building a header or claim set from any JSON value nested at most 100 levels, either succeeds or raises one of the library's JOSE errors: no other exception escapes, whatever an unauthenticated sender puts in the token.",
     ["inputs"],
     "all byte strings, structured near-tokens, arbitrarily typed and nested JSON in header and payload, with and without signature validation",
     "Only well formed tokens are decoded in the tests.",
     ["jose/jws.py", "jose/jwt.py", "jose/jwa/jws.py"],
     [("error translation", S + "jose/jws.py deserialize, " + S + "jose/jwt.py decode")],
     "exception monitor under structure-aware and byte-level fuzzing",
     "Held on the fuzzed inputs. Text that cannot be encoded as UTF-8 is outside the domain.")
prop("C11", "Encoding helpers are lossless and total",
     "Base64url encoding and decoding, integer encoding and decoding (from zero up), JSON dumping and loading, and query-string building and parsing (of non-empty names and values) are inverse to each other for every value. Parsing an Authorization header yields the exact Basic credentials (split at the first colon) or Bearer token, or nothing when it is not well formed, and never raises. The token hash is the base64url of the left half of the hash named by the algorithm.",
     ["inputs"],
     "all byte strings, all natural numbers, all JSON values, all maps of non-empty parameters, all header strings",
     "The helpers have no tests of their own.",
     ["webtools.py"],
     [("helpers", S + "webtools.py")],
     "inverse-function and reference-implementation monitors over generated values",
     "Held on the generated values (all small lengths and integers, sizes around powers of two, Unicode).")

# ------------------------------------------------------------------ OAuth
prop("C12", "Clients are authenticated only by their own credentials and method",
     "A token or revocation request is processed on behalf of a client only if it carries that client's ID with exactly its secret, by the one method the client is registered for (Basic header, form body, or no secret for public clients) and a method the grant allows. Wrong, missing, partial or differently cased secrets, another client's secret, a secret in the URL, another method, or several methods with secrets at once are refused with invalid_client, with a WWW-Authenticate Basic challenge when Basic credentials were the only ones, and nothing is issued, revoked or changed. A request with the right credentials is authenticated.",
     ["inputs", "configurations", "histories"],
     "every client registration, every placement and near-miss of credentials, every grant and endpoint, after any earlier requests",
     NO_TESTS + "authentication is a statement about all wrong credentials.",
     ["oauth2/authentication/client_authentication.py", "oauth2/authentication/methods/client_secret_basic.py", "oauth2/authentication/methods/client_secret_post.py", "oauth2/authentication/methods/none.py", "webtools.py"],
     [("secret and method comparison", S + "oauth2/authentication/methods/"), ("method selection", S + "oauth2/authentication/client_authentication.py")],
     "adapter-boundary monitor: every effect must be on behalf of the client an independent authenticator derives from the raw request",
     "Held on the requests tried; timing side channels are not observed.")
prop("C13", "Users are only ever redirected to a registered URI or the error page",
     "Every response of the authorization endpoint, and every redirect produced while preparing consent, goes either to a redirect URI registered, character by character, for the requesting client, or to the provider's error page. If the client is unknown, or the redirect URI is missing or not registered for it, the error page is used whatever else is wrong with the request, and no code is issued. The error page is told a registered error code.",
     ["inputs", "configurations", "histories"],
     "all authorization requests: any client, near-miss redirect URIs, any other parameter faults, logged in or not",
     NO_TESTS + "an open redirect only shows on combinations of faults.",
     ["oauth2/endpoints/authorization.py", "oauth2/models/http.py"],
     [("redirect URI membership test before any client redirect", S + "oauth2/endpoints/authorization.py"), ("FatalError to error page", S + "oauth2/endpoints/authorization.py")],
     "redirect-target monitor over single- and multi-fault authorization requests",
     "Held on the authorization requests tried (all pairs of faults, near-miss URIs).")
prop("C14", "Authorization codes are issued only for complete, permitted requests",
     "A code is issued and stored only if a user is logged in, the client is registered for the response type, the scopes are permitted and a PKCE challenge of 43 to 128 characters with method S256 or plain is present. The stored record carries exactly the requesting client, the logged-in user, and the request's redirect URI, scopes, challenge, method and (with OpenID Connect) nonce, and the code delivered is the code stored. A request meeting all conditions gets a code. What the user is asked to consent to is prepared only for a client registered for the redirect URI and the response type, and changes nothing.",
     ["inputs", "configurations", "histories"],
     "all authorization requests by all clients and users, valid and with each condition violated, in any order",
     NO_TESTS + "the binding of stored data to the request must hold for all requests.",
     ["oauth2/endpoints/authorization.py", "oauth2/grants/authorization_code.py", "oauth2/grants/base.py", "oidc/flows/authorization_code.py"],
     [("request validation", S + "oauth2/grants/authorization_code.py"), ("save_authorization_code call", S + "oauth2/grants/authorization_code.py authorize")],
     "adapter-boundary monitor comparing every stored code with the raw request, against an executable specification of issuance",
     "Held on the requests tried.")
prop("C15", "A code is redeemed only by its client, redirect URI and PKCE verifier",
     "The token endpoint issues tokens for an authorization code only if the code is stored and unexpired, belongs to the authenticated client, was issued for exactly the presented redirect URI, still registered, and the code verifier matches the stored challenge under the stored method (equality for plain, unpadded base64url SHA-256 for S256). The tokens issued are for the user and scopes recorded with the code, the response announces them with the configured lifetime, and a refresh token is included exactly for clients registered for the refresh_token grant. A request meeting all conditions succeeds.",
     ["inputs", "configurations", "histories"],
     "all redemption requests, with near-misses of each binding, at instants around expiry, by any client",
     NO_TESTS + "the binding must reject every wrong verifier, client and URI.",
     ["oauth2/grants/authorization_code.py", "oauth2/endpoints/token.py", "oauth2/grants/base.py"],
     [("code validation", S + "oauth2/grants/authorization_code.py"), ("PKCE transforms", S + "oauth2/grants/authorization_code.py")],
     "adapter-boundary monitor with virtual clock: every token creation must be justified by the stored code and raw request",
     "Held on the redemptions tried.")
prop("C16", "An authorization code is redeemed at most once",
     "Under any interleaving of concurrent requests within a provider, any history, any failure of the application's storage and any cancellation, at most one successful token response is given per authorization code. After an authenticated client permitted to use the grant has presented a code at the token endpoint and that request has ended, successfully, with a refusal, a storage failure or a cancellation, no later request redeems the code unless deleting it failed or was itself interrupted.",
     ["schedules", "fault_sequences", "histories"],
     "all interleavings of concurrent redemptions at storage suspension points, an exception or cancellation at every suspension point, all sequences of valid and invalid attempts",
     NO_TESTS + "replay windows exist only in particular interleavings and fault points.",
     ["oauth2/grants/authorization_code.py"],
     [("code deletion after every attempt and exclusion of concurrent redemptions", S + "oauth2/grants/authorization_code.py token")],
     "exactly-once history checker under a controlled asyncio scheduler with enumerated interleavings, injected storage faults and cancellations",
     "All interleavings of two concurrent redemptions and all single fault points are enumerated; larger mixes are sampled. Within one provider instance and a storage whose operations are atomic.",
     level="fault_enumeration")
prop("C17", "Tokens never carry more scope than requested, permitted and granted",
     "No grant issues a token or code with a scope that the request did not ask for (when it asked for any), that the client is not permitted when it makes that request (for a code: when it requested the code), or that was requested but is not supported by the provider; a request for such a scope is refused with invalid_scope instead of being narrowed or widened. Tokens for a code carry exactly the scopes recorded with it, and consent data lists exactly the requested scopes the client is permitted. Scopes are compared as whole space-separated names. The scope in a token response, when present, is what was granted, and it is present whenever a non-empty grant differs from the request.",
     ["inputs", "configurations", "histories"],
     "all scope strings against all client permissions and provider scope lists, in every grant, with permissions changing over time",
     NO_TESTS + "confinement must hold for every scope set and every chain of grants.",
     ["oauth2/grants/base.py", "oauth2/grants/authorization_code.py", "oauth2/grants/client_credentials.py", "oauth2/grants/refresh_token.py", "oauth2/endpoints/authorization.py"],
     [("requested scope validation", S + "oauth2/grants/base.py"), ("narrowing on refresh", S + "oauth2/grants/refresh_token.py")],
     "set-inclusion monitor at token creation over histories of authorize, redeem, refresh and client-credentials requests",
     "Held on the histories tried.")
prop("C18", "Refresh tokens work only for their client, user, lifetime and scopes",
     "A refresh request succeeds only with a stored, unexpired refresh token that belongs to the authenticated client and whose user still exists. The tokens it issues are for that same user and client, with scopes that are a subset of those of the presented token (and of those requested, when the request names any), so no chain of refreshes ever regains a scope given up or switches user or client; they carry all scopes requested or, when none are requested, all those of the presented token the client is still permitted, and they include a refresh token to go on with. A request meeting the conditions succeeds.",
     ["inputs", "configurations", "histories"],
     "all refresh requests in chains of refreshes, with users deleted, permissions changed and time passing in between",
     NO_TESTS + "escalation needs multi-step histories.",
     ["oauth2/grants/refresh_token.py"],
     [("binding and expiry checks", S + "oauth2/grants/refresh_token.py"), ("scope intersection", S + "oauth2/grants/refresh_token.py")],
     "lineage monitor over refresh chains with virtual clock and changing registrations",
     "Held on the refresh histories tried. Rotation or reuse of refresh tokens is left to the application and not judged.")
prop("C19", "Clients only get the grants they are registered for",
     "A client obtains a token through a grant only if the provider offers that grant type and the client is registered for it; otherwise the request is refused and nothing is issued. The client-credentials grant only serves clients that authenticated with a secret, issues a token on the client's own behalf and never a refresh token.",
     ["inputs", "configurations", "histories"],
     "all combinations of provider grants, client registrations, authentication methods and grant type strings",
     NO_TESTS + "the configuration matrix is never exercised.",
     ["oauth2/endpoints/token.py", "oauth2/grants/client_credentials.py", "oauth2/grants/base.py"],
     [("grant type lookup and registration check", S + "oauth2/endpoints/token.py"), ("allowed authentication methods", S + "oauth2/grants/client_credentials.py")],
     "authorization monitor at token creation over the configuration matrix of provider grants, registrations and methods",
     "Held on the configurations tried.")
prop("C20", "Only authenticated clients can revoke, and exactly the token they name",
     "A revocation request reaches the application's storage only from an authenticated client, with exactly that client, and with exactly the token and the type hint submitted in the body. It is answered 200, also for an unknown token or one of another client; a failed authentication is answered 401 and an unsupported type hint 400, both without touching any token. A request without a token in its body revokes nothing.",
     ["inputs", "histories"],
     "all revocation requests: any token text, hint, client and credential fault, in any history",
     NO_TESTS + "that nothing else is revoked must hold for every request.",
     ["oauth2/endpoints/revocation.py"],
     [("authentication before revocation", S + "oauth2/endpoints/revocation.py")],
     "adapter-boundary monitor of revocation calls against the raw request",
     "Held on the requests tried.")
prop("C21", "Every request gets a well-formed response; token responses are uncacheable",
     "Whatever parameters, headers and body a client sends, the authorization, token and revocation endpoints return a response and never raise, as long as the application's storage works. Token responses, successful or not, are JSON with Cache-Control no-store and Pragma no-cache; success is status 200 with access_token, token_type Bearer and the configured expires_in; refusals from the token and revocation endpoints are status 400 or 401 with a registered OAuth error code. Authorization responses are redirects, to be followed with GET and not cached (status 302 or 303), whose Location is plain ASCII without spaces or line breaks.",
     ["inputs"],
     "all byte-level requests: missing, repeated, blank, oversized, non-ASCII and undecodable parameters, headers and bodies",
     NO_TESTS + "totality is a statement about all inputs.",
     ["oauth2/endpoints/token.py", "oauth2/endpoints/authorization.py", "oauth2/endpoints/revocation.py", "oauth2/grants/authorization_code.py", "oauth2/models/http.py", "webtools.py"],
     [("error translation in endpoints", S + "oauth2/endpoints/"), ("response construction", S + "oauth2/models/http.py")],
     "exception and response-format monitor under structure-aware request fuzzing of all endpoints",
     "Held on the fuzzed requests, with an in-memory storage that never fails.")
prop("C22", "Authorization responses deliver code, state and errors intact",
     "Every redirect back to the client keeps the registered redirect URI, including any query it already has, and adds parameters that decode to exactly the values meant: the state exactly as received whenever the request had one, for success and for every error, and no state when it had none. A successful response carries a code and no error; an error response carries a registered error code and no code.",
     ["inputs"],
     "all state values (any Unicode, reserved and percent characters, any length), all redirect URIs, all error conditions",
     NO_TESTS + "corruption depends on the characters in the state and URI.",
     ["oauth2/endpoints/authorization.py", "oauth2/grants/authorization_code.py", "oauth2/models/http.py", "webtools.py", "oauth2/exceptions.py"],
     [("URL building", S + "webtools.py urlencode, " + S + "oauth2/models/http.py RedirectResponse"), ("state propagation", S + "oauth2/endpoints/authorization.py")],
     "delivery monitor: each Location parsed by an independent URL parser and compared with the raw request",
     "Held on the states, URIs and error conditions tried.")
prop("C23", "ID Tokens are issued for openid only, with correct, verifiable claims",
     "With OpenID Connect enabled, redeeming a code returns an ID Token if and only if the scope openid itself was granted. It is a JWT signed with the provider's key and algorithm whose iss is the provider, aud the client, exp and iat the current UTC time plus the configured lifetime and the current UTC time (in any host time zone), at_hash that of the access token in the same response, nonce the one of the authorization request if there was one, and whose user claims are those the application supplied for that user and those scopes.",
     ["inputs", "configurations", "histories"],
     "all scope sets, nonces, users, clients, signing keys and algorithms, at any time and in any time zone",
     NO_TESTS + "claims must follow each individual request.",
     ["oidc/flows/authorization_code.py", "oidc/claims.py", "webtools.py"],
     [("ID Token generation", S + "oidc/flows/authorization_code.py")],
     "ID Token monitor: tokens verified and their claims recomputed by an independent implementation under a virtual clock",
     "Held on the flows tried.")
prop("C24", "Extensions act only on the provider and grant they were added to",
     "A hook added to one grant of one provider runs only in flows of that grant on that provider, with that provider's storage and configuration, exactly at the points it implements, and what it returns is merged into that request's data or response only, replacing values of the same name. Several providers in one process, with different storages, issuers, scopes, keys and hooks, never influence each other.",
     ["configurations", "histories", "schedules"],
     "all sets of providers and hook registrations in one process, in any order of registration and requests, including concurrent requests",
     NO_TESTS + "interference needs several providers in one process.",
     ["oauth2/providers/base.py", "oauth2/grants/base.py", "oauth2/grants/authorization_code.py", "oidc/flows/authorization_code.py"],
     [("hook registry", S + "oauth2/grants/base.py"), ("add_hook", S + "oauth2/providers/base.py")],
     "non-interference monitor over multi-provider histories with recording hooks",
     "Held on the provider and hook configurations tried.")
prop("C25", "Concurrent requests never affect each other",
     "When several requests on different codes and tokens are processed concurrently by one provider, under any interleaving at storage suspension points, each gets the response it would have got alone, and every storage operation is performed with the client, user, scopes and values of the request that caused it.",
     ["schedules", "inputs"],
     "all mixes of authorization, token, refresh, client-credentials and revocation requests by different clients and users, under all interleavings at suspension points",
     NO_TESTS + "mixing of requests only shows in particular interleavings.",
     ["oauth2/endpoints/token.py", "oauth2/endpoints/authorization.py", "oauth2/endpoints/revocation.py", "oauth2/grants/authorization_code.py", "oauth2/grants/refresh_token.py", "oauth2/grants/client_credentials.py", "oauth2/authentication/client_authentication.py", "oidc/flows/authorization_code.py"],
     [("request data kept in locals and in the request object", S + "oauth2/")],
     "differential monitor: solo run versus scheduled concurrent run, per-request adapter traces attributed by task context",
     "Pairs of requests are explored over enumerated or densely sampled interleavings, larger mixes are sampled.")
prop("C26", "Codes and generated secrets are unpredictable and never repeat",
     "Authorization codes and generated tokens and keys come from the operating system's randomness: they never repeat, have the requested (positive) length from the URL-safe alphabet (64 characters for codes) with every position uniformly distributed, and do not become reproducible when the process forks, reseeds the standard generator or restarts at the same instant.",
     ["inputs", "histories", "configurations"],
     "all lengths, long sequences of values, reseeded, forked and restarted processes with a frozen clock",
     "Tests do not look at randomness at all.",
     ["webtools.py", "oauth2/grants/authorization_code.py", "jose/jwa/jwk.py"],
     [("secrets-based generation", S + "webtools.py secret_token"), ("key generation", S + "jose/jwa/jwk.py generate")],
     "statistical and replay monitor: uniqueness, per-position uniformity, and divergence after reseed, fork and restart",
     "Statistical thresholds have a false-alarm probability below 1e-9 per run; weaknesses smaller than the sample can resolve are not seen.")
prop("C27", "The web framework integration conveys requests and responses unchanged",
     "Through the Starlette integration, the library sees exactly the method, URL, query, headers and complete body that the HTTP client sent, also when the body arrives in pieces, and the application's logged-in user; a visitor the framework marks as unauthenticated is treated as no user, so no code is issued for it. The HTTP response has exactly the status, headers and body the endpoint produced.",
     ["inputs", "configurations", "schedules"],
     "all HTTP requests (chunked bodies, encoded URLs, any header case) and all endpoint responses, for logged-in and anonymous visitors, concurrently",
     NO_TESTS + "the integration is never executed.",
     ["oauth2/providers/starlette.py", "oauth2/models/http.py"],
     [("create_request/create_response", S + "oauth2/providers/starlette.py")],
     "boundary-fidelity monitor: raw ASGI messages compared with what the core saw and returned",
     "Held on the ASGI exchanges tried.")

prop("C28", "Answers wait for storage; a failure is no success and leaves nothing behind",
     "An endpoint answers a request, with success in particular, only after all storage operations of that request have completed. If one of them failed, the request does not succeed and is not blamed on the client: the failure reaches the application (or is reported as server_error or temporarily_unavailable). A request that failed or was cancelled, at whatever point, leaves nothing behind in the provider: every later request is answered as a new provider on the same storage would answer it.",
     ["crash_points", "histories", "schedules"],
     "every storage operation of every kind of request slow, failing or cancelled at it, followed by any later request",
     NO_TESTS + "storage failures and slow storage occur in no test.",
     ["oauth2/endpoints/token.py", "oauth2/endpoints/authorization.py", "oauth2/endpoints/revocation.py", "oauth2/grants/authorization_code.py", "oauth2/grants/refresh_token.py", "oauth2/authentication/client_authentication.py"],
     [("storage calls awaited in the request", S + "oauth2/grants"), ("code in use released and deleted in finally", S + "oauth2/grants/authorization_code.py token"), ("only protocol errors turned into replies", S + "oauth2/endpoints/token.py")],
     "fault-injection and completion monitor at the storage interface; later replies compared with those of a pristine provider in a forked process",
     "Held on every injected fault and cancellation point of the request kinds tried.")
prop("C29", "Secrets appear in no response, error, log or printed object",
     "Client secrets, code verifiers (and plain challenges), private and symmetric key material and passwords never appear, in any usual encoding and not even in part (12 or more characters), in a response of an endpoint, in the text of an exception raised by the library, in its log, warning or console output, or in the printed form of a key, key set or configuration. Nor does the right signature of a refused HMAC token. An authorization code or token appears in a response only if that very request issued it. (Dumping or exporting a private key on request is no disclosure.)",
     ["inputs", "histories", "configurations"],
     "every request, token or key, valid or refused for any reason, and every secret in use by it or by others",
     "No test looks for what must not be there; a disclosure shows on the specific error path only.",
     ["oauth2/exceptions.py", "oauth2/endpoints/token.py", "oauth2/authentication/methods/client_secret_basic.py", "oauth2/authentication/methods/client_secret_post.py", "oauth2/grants/authorization_code.py", "oauth2/grants/refresh_token.py", "jose/jwk.py", "jose/jwa/jwk.py", "oauth2/config.py"],
     [("error descriptions", S + "oauth2"), ("key errors", S + "jose/jwa/jwk.py"), ("printed keys", S + "jose/jwk.py")],
     "taint monitor: unique secrets, every output searched for their 12-character pieces under decoding",
     "Held on the outputs observed; the printed form of requests and responses, which carry what was sent, is not judged.")
prop("C30", "Nothing accumulates in the library while it works",
     "However many requests, tokens and keys are processed, granted, refused for whatever reason, failed or cancelled, what the library keeps in memory stays bounded: values of a finished operation (codes, tokens, client IDs, key IDs, requests) are not retained, except in caches of a fixed size, and no task is left running.",
     ["histories", "inputs"],
     "arbitrarily long histories of every kind of operation, with values never seen before",
     "A test performs an operation once or twice; retention only shows over thousands.",
     ["oauth2/grants/authorization_code.py", "oauth2/endpoints/token.py", "oauth2/authentication/client_authentication.py", "jose/jws.py", "jose/jwk.py", "webtools.py"],
     [("codes in use are released", S + "oauth2/grants/authorization_code.py token"), ("no module state", S + "webtools.py")],
     "allocation monitor: interpreter blocks and live objects after equal rounds of fresh operations, continued until growth stops or exceeds any fixed-size cache",
     "Held on the kinds of operation repeated; retention of less than about a twelfth of a block per operation is not seen.")

prop("C31", "Application-defined grants and client authentication methods are honoured",
     "Grants, response types and client authentication methods the application defines (before the provider is created) work like the built-in ones. A grant is reached exactly by the requests naming its grant type or response type, from clients registered for it and, at the token endpoint, authenticated by one of the methods it lists (any method if it lists none). It is given exactly the parameters of that request, its client, its user and its provider's storage and configuration; the result it returns, or the OAuth error it raises with code, description, URI and headers, is the response. A client authenticated by an application-defined method is accepted at the built-in grants that do not restrict the methods and at revocation, and a refusal by that method refuses. The built-in ones go on working as before.",
     ["inputs", "configurations", "schedules"],
     "every combination of own grant names, method lists, registrations, credentials, results and errors, one at a time and concurrently",
     NO_TESTS + "no test defines an extension.",
     ["oauth2/endpoints/token.py", "oauth2/endpoints/authorization.py", "oauth2/endpoints/revocation.py", "oauth2/authentication/client_authentication.py", "oauth2/authentication/methods/base.py", "oauth2/grants/base.py", "oauth2/exceptions.py"],
     [("grant selection", S + "oauth2/endpoints/token.py _validate_grant_type"), ("method discovery and selection", S + "oauth2/authentication/client_authentication.py"), ("errors turned into replies", S + "oauth2/exceptions.py dump")],
     "truth-table monitor around application-defined grants and methods: calls, arguments and replies compared with the expected ones",
     "Held on the extensions and requests tried. Two methods applicable to one request, and two grants of the same name, are not judged.")

prop("C32", "Keys, key sets and providers work the same when threads share them",
     "Several threads of a process may use the same keys, key sets, header and option objects and the library's functions at the same time, and serve providers of their own: whatever the threads do meanwhile and wherever they are interrupted, each signing, verification, decoding, claim check, dump, export, parse, look-up, encoding and request gives the result it would give alone. In particular no altered token is accepted, no genuine one refused, no private value enters a public dump, and no provider's request uses another's storage, key or configuration.",
     ["schedules", "inputs"],
     "every interleaving of every combination of operations on shared objects",
     NO_TESTS + "no test starts a thread.",
     ["jose/jwk.py", "jose/jws.py", "jose/jwt.py", "jose/jwa/jwk.py", "jose/jwa/jws.py", "webtools.py"],
     [("decoding", S + "jose/jws.py deserialize"), ("key operations", S + "jose/jwa/jwk.py sign, verify, dump"), ("look-up", S + "jose/jwk.py get_key")],
     "controlled thread schedules: a tracer hands the turn to another thread at lines and bytecodes of the library; results compared with those alone or judged by a reference implementation",
     "Held under the schedules explored: one preemption at each line of one operation by the whole of another (sampled in quick, all pairs in thorough), and random schedules of two to four threads. Races inside the C extension cryptography are out of reach.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mechanism"]],
                             observe_at=p["observe"] or ["public API and application storage interface"], hook_needed=None))) + "\n")
    import glob
    have = {os.path.basename(x)[:-3].upper() for x in glob.glob(os.path.join(HERE, "vf/checks/c[0-9]*.py"))}
    man = dict(version=1, setup_cmd="bash bin/setup",
               checks=[dict(property=p["id"], quick_cmd="bash bin/check %s" % p["id"],
                            thorough_cmd="VERIF_TIER=thorough bash bin/check %s" % p["id"],
                            evidence_file="evidence/%s.json" % p["id"], technique="runtime monitoring: " + p["technique"],
                            level=p["level"], level_note=p["note"]) for p in P if p["id"] in have],
               not_applicable=[dict(property=p["id"], reason="check not built yet") for p in P if p["id"] not in have],
               notes="All checks import psion from /repo/src of the working tree in a fresh interpreter without bytecode caches; no build artefact of /repo is used and /repo needs no hooks: monitors sit at the public API and at the application storage (adapter) interface.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
