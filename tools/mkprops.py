#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the table below is its source)."""
import json, os

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=pid, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=["src/oidcrp/" + f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe))))


prop("C01", "An ID Token is accepted exactly when it passes every validation rule",
     "Whether it arrives in the authorization response or from the token endpoint, an ID Token makes a login succeed exactly when it is signed with a key of the session's issuer using the algorithm registered for the client (never 'none' unless that was registered), names that issuer, lists the client in its audience (and as authorized party where one is given or several audiences are listed), has a subject, and is neither expired nor issued in the future or too long ago within the configured clock skew. An ID Token delivered in the front channel must in addition carry the hashes of the access token and code it is delivered with. When the ID Token is not acceptable the login call raises, and neither it nor its subject or claims become part of any session.",
     ["inputs", "configurations", "histories"],
     "Every combination of up to two (thorough: three) deviations over signature, algorithm, key, each claim's value domain, clock offset and hash binding, for each response type, registered algorithm and clock skew.",
     "The tests use one well-formed ID Token per flow; the rule is a conjunction over claims, keys, flows and clock values, and a mistake usually loses a single conjunct in a single flow.",
     ["oidc/authorization.py", "oidc/access_token.py", "service.py", "rp_handler.py"],
     [("arguments for message verification (issuer, client id, key jar, skew, algorithms)", "Authorization/AccessToken.gather_verify_arguments"),
      ("verification before any state update", "Service.parse_response")],
     ["RPHandler.finalize", "RPHandler.has_active_authentication", "state interface"])

prop("C02", "An ID Token only logs in the session whose nonce it carries",
     "An ID Token is accepted for a session only if its nonce is the one that session's own authorization request sent, whichever endpoint delivered it. An ID Token without nonce, with a foreign or stale nonce, or captured from another session of the same or another user is rejected, and leaves the other session unaffected. When one login delivers two ID Tokens, they must name the same subject.",
     ["histories", "inputs"],
     "All assignments of ID Tokens (own, other live session's, cleared session's, made-up, missing nonce) to the sessions of a history, for every response type and both delivery channels.",
     "Needs two sessions interleaved and tokens swapped between them; the tests never have more than one nonce in play at a time.",
     ["oidc/authorization.py", "oidc/access_token.py", "state_interface.py", "rp_handler.py"],
     [("nonce to state mapping", "StateInterface.store_nonce2state/get_state_by_nonce"),
      ("nonce comparison in the front channel", "oidc Authorization.post_parse_response"),
      ("nonce comparison at the token endpoint", "oidc AccessToken.update_service_context")],
     ["RPHandler.finalize"])

prop("C03", "Authorization responses are bound to their state and issuer",
     "An authorization response is accepted only if its state belongs to a live session that was started with the issuer the response is attributed to, and any issuer, client identifier or audience the response names is that of the session. A response that does not qualify is rejected with an exception before any request is sent to a token or user-info endpoint, and changes no session. An error response for a live session ends with the error being reported for that state and no tokens stored.",
     ["histories", "inputs"],
     "All deliveries of responses {own, another session's, another issuer's, unknown, cleared, missing state} x attributed issuer x embedded iss/client_id/aud x success/error, with sessions live at two issuers.",
     "The mix-up and CSRF space is the product of sessions and issuers; the tests deliver one correct and one wrong issuer.",
     ["rp_handler.py", "oidc/authorization.py", "oauth2/authorization.py", "service.py"],
     [("issuer check", "RPHandler.finalize_auth"), ("state lookup", "StateInterface.get_iss"),
      ("response verification", "Service.parse_response")],
     ["RPHandler.finalize", "RPHandler.finalize_auth", "requests seen by the simulated OPs"])

prop("C04", "Interleaved sessions never mix: each ends as if it had run alone",
     "For any interleaving of the steps (begin, callback, token exchange, refresh, user info, logout, clear) of several sessions of different users at the same or different issuers, every session obtains exactly the identity, tokens, and stored responses it would have obtained had it been the only one. Each request sent to an OP carries only the credentials, codes and tokens of the session it is made for.",
     ["histories", "schedules"],
     "All interleavings of the step sequences of 2 (thorough: 3) sessions over 1-2 issuers, every response type mix, explored breadth-first against per-session reference runs.",
     "An interleaving space; the tests run sessions one after the other.",
     ["rp_handler.py", "state_interface.py", "service.py", "client_auth.py"],
     [("all session data keyed by state", "StateInterface"), ("client chosen from the state", "RPHandler.get_client_from_session_key")],
     ["RPHandler.finalize/get_valid_access_token/get_user_info", "requests seen by the simulated OPs"])

prop("C05", "The session store behaves as a plain record per session",
     "After any sequence of store operations, reading an item returns exactly what was last stored under that session and item type; reading anything never stored raises KeyError. Looking up a nonce, subject, session id or logout state returns the state it was last bound to, and argument extension returns the newest of the listed items' values without altering the store.",
     ["histories"],
     "All sequences of create/store/bind/extend/remove operations up to the depth bound over two states and colliding values, compared after every step with a dictionary model.",
     "Store behaviour is a property of histories; tests run fixed short scripts on one state.",
     ["state_interface.py"],
     [("item storage", "StateInterface.store_item/get_item"), ("reverse lookups", "StateInterface.store_x2state/get_state_by_x")],
     ["StateInterface public methods"])

prop("C06", "Clearing a session removes all of it and nothing else",
     "After a session is cleared, its state, nonce, subject, session id and every logout state bound to it no longer lead to it, none of its tokens or claims remain readable, and responses for it are rejected. Every other session, including one of the same subject or opened later, remains fully usable and can be found through every key that was last bound to it. Clearing works at any point of a session's life.",
     ["histories"],
     "All operation histories up to the depth bound over two sessions (sharing or not sharing subject and sid), with clear at every point.",
     "The reverse-lookup entries make this a property of histories; the tests clear one freshly created session.",
     ["state_interface.py", "rp_handler.py"],
     [("removal through recorded references", "StateInterface.remove_state"), ("entry point", "RPHandler.clear_session")],
     ["RPHandler.clear_session", "StateInterface lookups"])

prop("C07", "Back-channel logout ends exactly the session a valid token names",
     "A back-channel logout request is honoured exactly when its logout token is signed by the issuer with the registered algorithm, is meant for this client and issuer, was not issued in the future, carries only the logout event, no nonce, and a subject or session id; anything else raises. The state returned belongs to the session the token names: by session id whenever the token carries a known one, otherwise by subject.",
     ["inputs", "histories"],
     "Every logout-token deviation (pairs) over signature, alg, iss, aud, iat, events, nonce, sub, sid; for session histories with one or two users holding one or two sessions each.",
     "The tests use a few tokens against one session; the identity of the session chosen depends on the history of logins.",
     ["rp_handler.py", "state_interface.py"],
     [("verification", "backchannel_logout"), ("lookup by sub/sid", "StateInterface.get_state_by_sub/get_state_by_sid")],
     ["backchannel_logout"])

prop("C08", "RP-initiated logout requests are bound to their session",
     "A logout request goes to the issuer's end-session endpoint, hints with the newest ID Token of exactly the session being logged out (none if it has none), names the post-logout URI that was asked for or else a configured one, and carries a fresh logout state. That logout state leads back to that session, for every logout request made, until the session is cleared; where logout is not supported the call says so.",
     ["histories", "configurations"],
     "All login/refresh/logout/clear histories up to the bound for two sessions x post-logout URI sources x flows.",
     "Which ID Token is hinted and which session a logout state leads to depend on the history.",
     ["oidc/end_session.py", "rp_handler.py", "state_interface.py"],
     [("hint, uri, state", "EndSession.get_id_token_hint/add_post_logout_redirect_uri/add_state"), ("entry", "RPHandler.logout/close")],
     ["RPHandler.logout", "RPHandler.close"])

prop("C09", "Token and login validity follow the clock and the newest response",
     "At any time, the access token reported as valid is one the OP issued to that session whose lifetime has not run out; when every token has expired the call raises, and its reported expiry is the time the response was received plus the lifetime it announced. A session counts as authenticated exactly while the newest ID Token accepted for it has not expired. A refreshed token takes over from the one it replaces.",
     ["histories", "inputs"],
     "All histories of login/refresh/clock advance up to the bound x flows x lifetimes {absent, short, long}.",
     "Depends on clock position relative to several lifetimes; the tests never move the clock.",
     ["rp_handler.py", "oauth2/access_token.py", "oauth2/refresh_access_token.py", "oidc/authorization.py", "oidc/access_token.py"],
     [("expiry stamping", "update_service_context of the token and authorization services"), ("selection", "RPHandler.get_valid_access_token/has_active_authentication")],
     ["RPHandler.get_valid_access_token", "RPHandler.has_active_authentication"])

prop("C10", "Refreshing uses the newest refresh token and never loses the session",
     "Each refresh sends the refresh token most recently issued to that session, and after success the new access token is the one used; a refresh response that does not rotate the refresh token leaves the old one usable for the next refresh. A refresh keeps what the login established: the identity, the ID Token used for logout hints and the subject check of later user info. An ID Token returned by a refresh is accepted only if it is valid and names the same subject, and a refused or failed refresh leaves the session as it was.",
     ["histories", "fault_sequences"],
     "All sequences of refresh outcomes {rotate, no rotate, with/without ID Token, ID Token of another subject/issuer/expired, OAuth error, HTTP failure} up to the bound, interleaved with user-info, logout and token reads.",
     "Needs chains of refreshes with different answers; the tests do a single refresh.",
     ["oauth2/refresh_access_token.py", "oidc/refresh_access_token.py", "rp_handler.py", "state_interface.py"],
     [("refresh-token selection", "RefreshAccessToken.oauth_pre_construct"), ("storing", "RefreshAccessToken.update_service_context")],
     ["RPHandler.refresh_access_token", "requests seen by the simulated OP"])

prop("C11", "User info is only accepted for the authenticated subject",
     "When a session has an ID Token, user info is accepted only if its subject equals that ID Token's subject; it is fetched with the session's own access token and, when returned as a JWT, only accepted if correctly signed by the issuer. The claims handed to the application are exactly those the OP sent (plus claims from listed claim sources); on rejection the call raises and nothing is stored for the session.",
     ["inputs", "histories", "configurations"],
     "Every flow x ID Token source x user-info subject {same, other, missing, empty, wrong type} x representation {json, signed by issuer, by other key, unsigned, tampered} x registered userinfo algorithm x token choice.",
     "The tests have one matching user-info response.",
     ["oidc/userinfo.py", "rp_handler.py", "service.py"],
     [("subject comparison", "UserInfo.post_parse_response"), ("JWT unpacking", "Service._do_jwt")],
     ["RPHandler.finalize", "RPHandler.get_user_info"])

prop("C12", "Aggregated and distributed claims never override the verified identity",
     "Claims from an aggregated or distributed claim source are added only if the user-info response attributes them to that source, and an aggregated source's claims only after its signature verified with a key known to belong to the claim source. No claim source can replace the subject that was matched against the ID Token. A distributed source is contacted at its own endpoint only with its own token, never with the session's access token.",
     ["inputs", "configurations"],
     "All small user-info documents with one or two claim sources over {aggregated signed by known/unknown/wrong key, unsigned, distributed with/without token, failing} x attributed claims including 'sub' x extra claims.",
     "The tests use one well-formed source of each type.",
     ["oidc/userinfo.py", "oidc/__init__.py"],
     [("aggregated claims", "UserInfo.post_parse_response"), ("distributed claims", "RP.fetch_distributed_claims")],
     ["RPHandler.get_user_info", "RP.fetch_distributed_claims"])

prop("C13", "The authorization request sent is the one asked for and recorded",
     "The URL handed out goes to the issuer's authorization endpoint and carries the client id, the requested or configured response type and scopes (always including openid for OIDC), one of the client's registered redirect URIs suited to the response type and mode, the caller's extra parameters unchanged, and a state and (whenever an ID Token is expected) a nonce. What is recorded for the session equals what the URL says, and building it changes neither the caller's arguments nor the configuration, so later requests are unaffected by earlier ones.",
     ["inputs", "configurations", "histories"],
     "Every response type x mode x redirect-URI configuration x scope form x extra parameter set x endpoint with/without query, built twice in a row in every ordered pair of argument sets.",
     "Requests are a product of configuration and arguments, and leakage from one request into the next needs pairs; the tests check one combination each.",
     ["rp_handler.py", "oidc/authorization.py", "oauth2/authorization.py", "oauth2/utils.py", "service.py", "util.py"],
     [("argument gathering", "Service.gather_request_args"), ("pre/post construct", "oidc Authorization.oidc_pre_construct/oidc_post_construct"), ("redirect uri", "pick_redirect_uri")],
     ["RPHandler.begin", "RPHandler.init_authorization"])

prop("C14", "State, nonce and PKCE verifier are fresh and unguessable",
     "Every authorization request gets a state, nonce and code verifier different from those of every other request, and logout states likewise. The values cannot be predicted or reproduced from the general-purpose random generator's state: re-seeding it between requests never makes values repeat. Each contains at least 128 bits of entropy.",
     ["histories", "inputs"],
     "All histories of begin/logout calls up to the bound with re-seeding of the process random generator before any subset of the calls.",
     "Tests never look at two requests, nor control the random generator.",
     ["util.py", "rp_handler.py", "state_interface.py", "oauth2/add_on/pkce.py", "oidc/end_session.py"],
     [("random strings", "util.rndstr/unreserved"), ("state", "StateInterface.create_state")],
     ["RPHandler.begin", "RPHandler.logout"])

prop("C15", "The code exchange repeats the session's own code, redirect URI and verifier",
     "The token request for a session carries the code from that session's authorization response, exactly the redirect URI of its authorization request, the authorization_code grant type and the client's id, and goes to the issuer's token endpoint. With PKCE the authorization request carries a challenge that is the configured transformation of a verifier of the configured length over the permitted alphabet, and the token request of the same session, and only that one, carries that verifier.",
     ["histories", "configurations"],
     "Every flow with a code x redirect-URI choice x PKCE {off, S256, S384, S512} x verifier length x authentication method, with two sessions interleaved in all orders against a strict OP.",
     "Pairing between two requests of one session while another is interleaved; the tests do one session and do not check the OP's side.",
     ["oauth2/access_token.py", "oauth2/add_on/pkce.py", "rp_handler.py"],
     [("token request", "AccessToken.oauth_pre_construct, RPHandler.get_tokens"), ("verifier", "pkce.add_code_challenge/add_code_verifier")],
     ["requests seen by the simulated OP"])

prop("C16", "The client authenticates with the agreed method and leaks no credential",
     "Requests to the token endpoint authenticate with the method agreed for the client and with no other: the Basic header decodes to the form-encoded id and secret; the post method puts exactly them in the body; the JWT methods send an unexpired assertion with unique id, issued by and about the client, addressed to the token endpoint, signed with the secret or the client's private key respectively. The client secret never appears in any URL, front-channel request, header or body except where its method requires it.",
     ["configurations", "inputs"],
     "Every authentication method x source of the choice (configuration, registration, negotiation) x request type {code exchange, refresh, client credentials} x alphabet of id/secret characters x signing algorithms the OP lists.",
     "The tests check each method in isolation with plain secrets, not what reaches the wire in each flow.",
     ["client_auth.py", "service.py", "rp_handler.py", "oidc/access_token.py"],
     [("methods", "client_auth.CLIENT_AUTHN_METHOD"), ("selection", "RPHandler.get_client_authn_method, get_authn_method")],
     ["requests seen by the simulated OP"])

prop("C17", "DPoP proofs are valid for exactly the request they accompany",
     "With DPoP configured and supported by the OP, every token and user-info request carries a proof whose method and target are those of that request, with a unique id, the current time, an algorithm both sides support, and a signature that verifies with the embedded key, which contains no private material; the same key is used throughout the client's life. Where no common algorithm exists, requests go out without a proof and the login still works.",
     ["configurations", "histories"],
     "Every pair of (client algorithms, OP algorithms) over a small alphabet x request sequences over two sessions.",
     "The tests build one header with one algorithm.",
     ["oauth2/add_on/dpop.py"],
     [("header construction", "dpop.dpop_header"), ("proof", "DPoPProof")],
     ["requests seen by the simulated OP"])

prop("C18", "Provider metadata is adopted only from, and completely for, its issuer",
     "Discovery asks the well-known location of the issuer and adopts metadata only if it names that same issuer (up to a trailing slash, unless mismatch was explicitly allowed). After adoption every service uses the endpoint the metadata gives for it and ID Tokens are verified with the keys it points to; metadata that is missing, malformed or for another issuer raises and leaves the client without endpoints, keys or issuer from it, so that a later retry succeeds.",
     ["inputs", "fault_sequences"],
     "Every metadata document over issuer variants x presence of each endpoint x key source x HTTP outcome, followed by retry with a good document.",
     "The tests load one good document and one mismatch.",
     ["oauth2/provider_info_discovery.py", "oidc/provider_info_discovery.py", "oauth2/__init__.py", "rp_handler.py"],
     [("issuer check", "ProviderInfoDiscovery._verify_issuer"), ("endpoints", "_set_endpoints"), ("configured metadata", "RPHandler.do_provider_info")],
     ["RPHandler.client_setup", "requests seen by the simulated OP"])

prop("C19", "Negotiated behaviour stays within what both sides support",
     "For each preference the client states, the behaviour settled on is supported by the provider (or the standard's default when the provider is silent), is among the client's preferences, is the most preferred such value, and a list keeps the client's order. When provider and client have nothing in common the set-up raises instead of continuing, and the stated preferences and the provider's metadata are left unchanged.",
     ["inputs", "configurations"],
     "For every negotiable preference: all client values/lists x all provider lists over a three-value alphabet, plus absent; pairs of preferences together.",
     "Tests use a handful of documents; mistakes show on one parameter type or one overlap pattern.",
     ["oidc/provider_info_discovery.py"],
     [("matching", "ProviderInfoDiscovery.match_preferences")],
     ["service context behaviour after set-up"])

prop("C20", "What is registered is what is used",
     "A dynamically registering client registers exactly the redirect, logout and request URIs it later uses or is configured with; generated URIs are unique to the issuer, stable for a given seed, and lead back to that issuer. The registration request states the client's keys - where it publishes them, or the public keys themselves - and preferences and grant types consistent with its response types, and afterwards the client uses the identifier, secret and other values the response gave; a response without a client identifier, or an error, does not leave a half-registered client in use.",
     ["configurations", "fault_sequences"],
     "Every set of response types (up to 3) x form_post/request_uri/logout usability x configured URIs x registration answers {full, minimal, no secret, error, malformed}.",
     "The tests register one configuration.",
     ["oidc/registration.py", "rp_handler.py", "util.py"],
     [("callbacks", "create_callbacks/add_callbacks/add_callback_uris"), ("response", "Registration.update_service_context")],
     ["registration request at the simulated OP", "RPHandler.begin"])

prop("C21", "Failed or garbled HTTP responses never become session data",
     "Whatever status, content type and body an endpoint answers with, a call either returns a verified success message, reports the OAuth error the OP sent, or raises; redirects, server errors, non-success statuses with otherwise valid bodies, empty and undecodable bodies are never taken for tokens, user info, metadata or registrations. After such a failure the session's and client's stored data are what they were before the request, and repeating the request with a good answer succeeds.",
     ["fault_sequences", "inputs"],
     "Every endpoint (discovery, registration, token, refresh, user info) x status class x content type x body kind x transport exception, then a good answer.",
     "The product is far larger than the tests' handful of 200/400 responses, and none retries after a failure.",
     ["oauth2/__init__.py", "service.py", "util.py", "http.py", "rp_handler.py"],
     [("status handling", "Client.get_response/parse_request_response"), ("content type", "util.get_deserialization_method"), ("parsing", "Service.parse_response")],
     ["RPHandler public methods", "session information"])

prop("C22", "Saved state restored at any point continues as if never interrupted",
     "If the client's service context or session store is dumped to JSON at any point of a history and loaded into a fresh client of the same configuration, the remaining steps give the same results as without interruption. The dump is a snapshot: later activity of the original does not change it, and loading it does not tie the two together.",
     ["crash_points", "histories"],
     "Every cut point of every login/refresh/user-info/logout history up to the bound, for static, dynamically registered, PKCE and DPoP clients, restored into a fresh process-equivalent client.",
     "A crash-point property; the tests dump and load only trivial contexts.",
     ["service_context.py", "state_interface.py", "service.py", "oauth2/add_on/dpop.py"],
     [("parameters that are dumped", "ServiceContext.parameter, StateInterface.parameter, Service.parameter")],
     ["dump()/load() then RPHandler/Client methods"])

prop("C23", "Cookies round-trip and any tampering is detected",
     "A cookie made by the library and parsed with the same name and keys returns exactly the value, timestamp and type that were put in. A cookie whose content differs in any way, including moving the boundary between its fields, or that is parsed with other keys, under another name, or in the other protection mode, is never returned as valid, and the failure is the documented one (no value or an invalid-signature error). An encrypted cookie does not reveal its content. A cookie carries the attributes and lifetime asked for.",
     ["inputs"],
     "All short payloads over an alphabet including the separators x keys x every single-character edit, field reordering, boundary shift, truncation and splice between two cookies.",
     "The tests flip one character.",
     ["cookie.py"],
     [("signing/encryption", "make_cookie"), ("verification", "parse_cookie"), ("wrapper", "CookieDealer")],
     ["parse_cookie", "CookieDealer.get_cookie_value"])

prop("C24", "WebFinger finds the issuer by the standard's normalisation rules",
     "Any user identifier is normalised as OpenID Connect Discovery prescribes: the resource and host asked are those of the rules for e-mail style, host, host with port or path, URL, acct and fragment forms, always over https at the well-known location with the issuer relation; identifiers outside the rules are refused. The issuer adopted is the link of the issuer relation, never one of another relation, and an http link only if allowed; an answer without such a link adopts nothing.",
     ["inputs", "fault_sequences"],
     "All identifiers built from the grammar of scheme/userinfo/host/port/path/query/fragment parts (bounded), and all answers with up to three links over relation x scheme.",
     "The tests list a dozen identifiers.",
     ["oidc/webfinger.py", "rp_handler.py"],
     [("normalisation", "WebFinger.query"), ("adoption", "WebFinger.update_service_context")],
     ["WebFinger.get_request_parameters", "RPHandler.begin(user_id=...)"])

prop("C25", "Threads serving different users do not disturb each other",
     "When several threads of a web application use one handler at the same time to begin and complete logins, refresh or store results, including the very first logins at an issuer, the outcome is that of some one-after-the-other order: no session is lost, each issuer is discovered and registered with once, and no stored response disappears. No thread sees an exception or data that a serial order could not produce.",
     ["schedules"],
     "All interleavings with at most one (thorough: two) preemptions, at the granularity of source lines of the library, of 2 threads running {first begin, begin, finalize, refresh, user info, store} pairs.",
     "A schedule property; the tests are single threaded.",
     ["rp_handler.py", "state_interface.py", "service.py", "oauth2/add_on/dpop.py"],
     [("shared client per issuer", "RPHandler.client_setup"), ("shared store", "StateInterface")],
     ["RPHandler public methods under a controlled scheduler"])

prop("C26", "Client set-up is idempotent and resumes after failure",
     "However often and by whatever name (configuration key, issuer with or without trailing slash, user identifier) logins are begun at one issuer, there is one client for it: discovery and registration happen once, and logins in progress stay valid when further ones begin. If any set-up step fails, the call raises and the next attempt starts the missing steps again and succeeds; logins at other issuers and with existing clients are unaffected.",
     ["histories", "fault_sequences"],
     "All histories of begin/finalize/failing begin up to the bound over issuers known by configuration key, by issuer id, and dynamically, with a fault at each HTTP request.",
     "Needs two begins around a pending login and faults inside the set-up; tests begin once.",
     ["rp_handler.py", "oauth2/__init__.py", "util.py"],
     [("one client per issuer", "RPHandler.client_setup/issuer2rp"), ("steps", "do_provider_info/do_client_registration")],
     ["RPHandler.begin", "requests seen by the simulated OPs"])

prop("C27", "Clients made from one configuration stay independent",
     "Clients for different issuers created by one handler share nothing that can be modified: what is discovered, negotiated, registered or set for one, or passed as arguments for one request, never shows up in another client, in a second handler using the same configuration, or in the configuration the application supplied. A handler's behaviour for an issuer does not depend on which other issuers were used before.",
     ["histories", "configurations"],
     "All orders of setting up and using clients for three issuers of different capabilities from one handler or two handlers sharing a configuration, compared with each issuer alone.",
     "Sharing shows only when several clients with different capabilities are made in one process.",
     ["rp_handler.py", "service_context.py", "service.py", "entity.py", "client_auth.py", "oidc/provider_info_discovery.py"],
     [("per issuer client", "RPHandler.init_client"), ("service initialisation", "init_services")],
     ["RPHandler.begin for each issuer", "supplied configuration"])

prop("C28", "Request objects and pushed requests carry the same request, verifiably",
     "When a request is sent as a request object, by value, by reference or pushed to the OP, what the OP can verify and decode equals what would have been sent as plain parameters; it is signed with the configured algorithm and the client's own key, issued by the client and addressed to the issuer, and its file and URL are unique per request. The front-channel URL keeps the parameters OAuth requires there and the recorded request still serves the rest of the login.",
     ["configurations", "inputs"],
     "Every transport {value, reference, pushed body formats and merge rules} x signing algorithm {none, RS, ES, HS} x lifetime x parameter sets x PKCE, verified by an OP-side decoder, followed by the complete login.",
     "Tests look at one combination and do not finish the login.",
     ["oidc/authorization.py", "oidc/utils.py", "oauth2/add_on/pushed_authorization.py"],
     [("request object", "oidc Authorization.construct_request_parameter"), ("PAR", "pushed_authorization.push_authorization")],
     ["URL, file and pushed body as seen by the simulated OP"])

prop("C29", "Every outgoing request uses the configured transport settings",
     "Every HTTP request the library makes, on behalf of any service, key fetch or claim source, uses the configured TLS verification, client certificate (also as client_cert/client_key), proxies and timeout, and every request but key fetches the configured headers; when nothing is configured server certificates are verified. No redirect is followed unless the caller asks for it, key documents excepted. Settings and headers given for one request are used for that request, together with the configured ones, and never affect another request or the defaults; a request callback's arguments are the ones used; a strange cookie does not make an answer lost.",
     ["configurations", "histories"],
     "Every transport parameter set x every way to give it x every kind of outgoing request, every redirect status and target at every endpoint, and all pairs (thorough: triples) of consecutive calls with different per-call arguments.",
     "The tests replace the HTTP layer, so transport settings never reach an assertion.",
     ["http.py", "oauth2/__init__.py", "rp_handler.py", "entity.py", "util.py"],
     [("defaults", "HTTPLib.__call__"), ("propagation", "RPHandler/Entity httpc_params"), ("config", "util.get_http_params")],
     ["parameters seen by the requests transport adapter"])

prop("C30", "Client-credentials tokens are obtained, kept and refreshed correctly",
     "A client-credentials request authenticates the client with the configured method and asks for the client_credentials grant and requested scope only; tokens obtained under different keys (or none) are kept apart. A refresh sends the newest refresh token obtained under that key, also when earlier refreshes brought no new one; the answer is returned and kept as it was, with the right expiry; errors and malformed answers raise or are reported without replacing what is held, and without a refresh token nothing is sent.",
     ["histories", "fault_sequences"],
     "All sequences of request/refresh/error answers up to the bound over two keys.",
     "The tests do one request and one refresh.",
     ["oauth2/client_credentials/cc_access_token.py", "oauth2/client_credentials/cc_refresh_access_token.py", "client_auth.py"],
     [("token service", "CCAccessToken"), ("refresh", "CCRefreshAccessToken")],
     ["Client.do_request", "requests seen by the simulated AS"])

prop("C31", "Requests and responses keep every parameter value on the wire",
     "Serialising a request into a URL, form body or JSON body and decoding it at the other end yields exactly the parameters of the request, for every value including reserved, non-ASCII and repeated characters; an endpoint's own query parameters are kept. A response given as a complete redirect URL, as a query or fragment string, or as a dictionary is understood the same.",
     ["inputs"],
     "All parameter sets over an alphabet of awkward values x endpoints with/without query/fragment x method x serialisation; all response encodings.",
     "Encoding errors hide in characters the tests do not use.",
     ["util.py", "service.py"],
     [("URL", "util.get_http_url"), ("body", "util.get_http_body"), ("response part", "Service.get_urlinfo")],
     ["Service.get_request_parameters", "Service.parse_response"])

prop("C32", "Plain OAuth2 providers work through the same handler",
     "With a provider that issues no ID Token, a login completes with the user information and access token the provider returned for that session, whatever the user-info document calls its subject and whether or not the token answer is form-encoded. Sessions, tokens and errors are kept apart and reported as for OpenID Connect, and absent optional services or capabilities lead to a clear result instead of a crash.",
     ["configurations", "inputs"],
     "Every combination of services {with/without user info, refresh, end session}, provider flavours (github, linkedin, plain OAuth2), token-answer encodings and user-info documents.",
     "The tests cover one provider's happy path with a subject present.",
     ["rp_handler.py", "provider/github.py", "provider/linkedin.py", "oauth2/__init__.py", "oauth2/access_token.py"],
     [("finalisation", "RPHandler.finalize/get_access_and_id_token"), ("flavours", "provider.*")],
     ["RPHandler.finalize", "RPHandler.logout"])

prop("C33", "Every way of writing a configuration yields the same client",
     "What a configuration says is what the client uses, however it is written: as a dictionary or a JSON, YAML or Python file, alone or as a part of an application's configuration, with names in lower or upper case, with absolute or relative paths. {domain} and {port} are replaced in every URI by the values given as arguments or in the configuration, a base path is added exactly once, and what is not said gets a safe default: certificates are verified and the hash seed is unpredictable. A handler made from it sends the providers exactly what one made from the literal settings sends, and a server TLS context verifies and trusts exactly what its settings say.",
     ["configurations"],
     "File formats x ways of loading x origins of domain/port x base paths x names in upper case (all subsets) x left-out settings (all subsets) x ways of leaving out; server certificate settings exhaustively.",
     "The tests load two example files and compare a few members.",
     ["configure.py", "util.py", "rp_handler.py"],
     [("loading", "configure.Configuration/RPConfiguration"), ("templates", "configure.set_domain_and_port etc."), ("TLS", "util.create_context")],
     ["oidcmsg.configure.create_from_config_file", "Configuration", "RPConfiguration", "util.create_context"])

prop("C34", "Requests made for a session carry that session's newest tokens unchanged",
     "Every request the library makes on behalf of a session carries tokens of that session only: the user info request the access token most recently issued to it, in the one place (header or form body) and with the HTTP method that are configured and nowhere else; the session check, the check-ID request and the logout request the ID Token it received last, byte for byte as the provider signed it. This holds whatever logins, refreshes and clearings of this and other sessions, of the same or another user, came before. For a session that does not exist no token is sent.",
     ["histories", "configurations"],
     "All histories up to the bound of two sessions: logins of every flow (one or two sources of tokens), refreshes with and without new refresh and ID tokens, clearing; for every way to present the access token.",
     "Needs several sessions with several generations of tokens at once; the tests store one made-up token and look at one request.",
     ["client_auth.py", "oidc/userinfo.py", "oidc/check_session.py", "oidc/check_id.py", "oidc/end_session.py", "state_interface.py"],
     [("access token", "client_auth.BearerHeader/BearerBody/find_token"), ("ID Token", "StateInterface.multiple_extend_request_args")],
     ["requests seen by the simulated OP", "CheckSession/CheckID.get_request_parameters"])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
