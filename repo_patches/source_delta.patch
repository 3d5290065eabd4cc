From 5a8b9d3f4d8d6cc02a9a93e7755b372d05b11576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 01/80] fix: register a redirect URI for the 'code id_token'
 response type

The list of response types that need the implicit callback had 'code idtoken',
which matches nothing, so a client preferring only 'code id_token' registered
without any redirect URI.
---
 src/oidcrp/oidc/registration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index 06a3ea9..5611238 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -125,7 +125,7 @@ def add_callbacks(context, ignore: Optional[List[str]] = None):
         # code and/or implicit
         if _in_config_or_client_preferences(context.config, "response_types", "code"):
             _uris['code'] = True
-        for rt in ["id_token", "id_token token", "code id_token token", "code idtoken",
+        for rt in ["id_token", "id_token token", "code id_token token", "code id_token",
                    "code token"]:
             if _in_config_or_client_preferences(context.config, "response_types", rt):
                 _uris["implicit"] = True
-- 
2.43.0


From fc660a4148665a1d99d2ae665a94957c4db61605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 02/80] fix: the two ID Tokens of a hybrid login must name the
 same subject

---
 src/oidcrp/oidc/access_token.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/oidcrp/oidc/access_token.py b/src/oidcrp/oidc/access_token.py
index 8a2b215..7131ae9 100644
--- a/src/oidcrp/oidc/access_token.py
+++ b/src/oidcrp/oidc/access_token.py
@@ -80,6 +80,14 @@ class AccessToken(access_token.AccessToken):
             except KeyError:
                 raise ValueError('Invalid nonce value')
 
+            # In a hybrid flow the ID Token from the authorization endpoint and the one from
+            # the token endpoint must be about the same subject.
+            _idt_claim = verified_claim_name('id_token')
+            _front = _state_interface.multiple_extend_request_args(
+                {}, key, [_idt_claim], ['auth_response']).get(_idt_claim)
+            if _front and _front['sub'] != _idt['sub']:
+                raise ParameterError('The ID Tokens are about different subjects')
+
             _state_interface.store_sub2state(_idt['sub'], key)
 
         if 'expires_in' in resp:
-- 
2.43.0


From 05a876c0f5004f547783854636c586ea95ce3642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 03/80] fix: reject a response whose verification fails without
 an exception

Message.verify() reports some mismatches (an authorization response's audience,
for instance) by returning False, which was ignored.
---
 src/oidcrp/service.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index c4726a5..ddf5408 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -563,7 +563,8 @@ class Service(ImpExp):
             LOGGER.debug("Verify response with %s", vargs)
             try:
                 # verify the message. If something is wrong an exception is thrown
-                resp.verify(**vargs)
+                if resp.verify(**vargs) is False:
+                    raise ResponseError('Response could not be verified')
             except Exception as err:
                 LOGGER.error(
                     'Got exception while verifying response: %s', err)
-- 
2.43.0


From f7db0a9edcd99330cd9307cf0dcf41e7f280e5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 04/80] fix: remove a session completely and nothing but that
 session

remove_state() raised on a session without references, left the reference entry
and all but the last value of each type behind, and deleted bindings that had
been taken over by another session.
---
 src/oidcrp/state_interface.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/oidcrp/state_interface.py b/src/oidcrp/state_interface.py
index bfc7100..c697373 100644
--- a/src/oidcrp/state_interface.py
+++ b/src/oidcrp/state_interface.py
@@ -243,17 +243,15 @@ class StateInterface(ImpExp):
         :param xtyp: The type of value x is (e.g. nonce, ...)
         """
         self._db[KEY_PATTERN[xtyp].format(value)] = state
-        try:
-            _val = self._db.get("ref{}ref".format(state))
-        except KeyError:
-            _val = None
-
-        if _val is None:
-            refs = {xtyp: value}
-        else:
-            refs = json.loads(_val)
-            refs[xtyp] = value
-        self._db["ref{}ref".format(state)] = json.dumps(refs)
+        _ref_key = "ref{}ref".format(state)
+        _val = self._db.get(_ref_key)
+        refs = json.loads(_val) if _val else {}
+        # The same session can have more than one value of a type, several logout states
+        # for instance
+        _values = refs.setdefault(xtyp, [])
+        if value not in _values:
+            _values.append(value)
+        self._db[_ref_key] = json.dumps(refs)
 
     def get_state_by_x(self, value, xtyp):
         """
@@ -382,7 +380,13 @@ class StateInterface(ImpExp):
         :param state: Key to the state
         """
         del self._db[state]
-        refs = json.loads(self._db.get("ref{}ref".format(state)))
-        if refs:
-            for xtyp, _val in refs.items():
-                del self._db[KEY_PATTERN[xtyp].format(_val)]
+        _ref_key = "ref{}ref".format(state)
+        _val = self._db.get(_ref_key)
+        if _val:
+            for xtyp, _values in json.loads(_val).items():
+                for _value in _values:
+                    _key = KEY_PATTERN[xtyp].format(_value)
+                    # By now it may belong to another session
+                    if self._db.get(_key) == state:
+                        del self._db[_key]
+            del self._db[_ref_key]
-- 
2.43.0


From 9a655479b5ccae24db1affbbeab2ad3d9f5da7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 05/80] fix: a refresh keeps the session's ID Token and refresh
 token and uses the new access token

---
 src/oidcrp/oauth2/refresh_access_token.py | 15 +++++++++++++--
 src/oidcrp/oidc/refresh_access_token.py   | 23 +++++++++++++++++++++++
 src/oidcrp/rp_handler.py                  |  4 ++++
 3 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oauth2/refresh_access_token.py b/src/oidcrp/oauth2/refresh_access_token.py
index 4b5efa6..7b66956 100644
--- a/src/oidcrp/oauth2/refresh_access_token.py
+++ b/src/oidcrp/oauth2/refresh_access_token.py
@@ -2,7 +2,9 @@
 import logging
 
 from oidcmsg import oauth2
+from oidcmsg.message import Message
 from oidcmsg.oauth2 import ResponseMessage
+from oidcmsg.oidc import verified_claim_name
 from oidcmsg.time_util import time_sans_frac
 
 from oidcrp.oauth2.utils import get_state_parameter
@@ -19,7 +21,7 @@ class RefreshAccessToken(Service):
     endpoint_name = 'token_endpoint'
     synchronous = True
     service_name = 'refresh_token'
-    default_authn_method = 'bearer_header'
+    default_authn_method = 'client_secret_basic'
     http_method = 'POST'
 
     def __init__(self, client_get, client_authn_factory=None, conf=None):
@@ -30,7 +32,16 @@ class RefreshAccessToken(Service):
     def update_service_context(self, resp, key='', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
-        self.client_get("service_context").state.store_item(resp, 'token_response', key)
+
+        # What a refresh doesn't renew is still what earlier responses said it was.
+        _state_interface = self.client_get("service_context").state
+        _keep = ['refresh_token']
+        if 'id_token' not in resp:
+            _keep.extend(['id_token', verified_claim_name('id_token')])
+        _item = _state_interface.extend_request_args({}, Message, 'refresh_token_response', key,
+                                                     _keep, orig=True)
+        _item.update(resp)
+        _state_interface.store_item(Message(**_item), 'refresh_token_response', key)
 
     def oauth_pre_construct(self, request_args=None, **kwargs):
         """Preconstructor of request arguments"""
diff --git a/src/oidcrp/oidc/refresh_access_token.py b/src/oidcrp/oidc/refresh_access_token.py
index d6af5a3..b9f01bd 100644
--- a/src/oidcrp/oidc/refresh_access_token.py
+++ b/src/oidcrp/oidc/refresh_access_token.py
@@ -1,6 +1,9 @@
 from oidcmsg import oidc
+from oidcmsg.oidc import verified_claim_name
 
+from oidcrp.exception import ParameterError
 from oidcrp.oauth2 import refresh_access_token
+from oidcrp.oidc import access_token
 
 
 class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
@@ -8,6 +11,26 @@ class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
     response_cls = oidc.AccessTokenResponse
     error_msg = oidc.ResponseMessage
 
+    # An ID Token is verified the same way whichever grant it came from
+    gather_verify_arguments = access_token.AccessToken.gather_verify_arguments
+
+    def update_service_context(self, resp, key='', **kwargs):
+        _idt_claim = verified_claim_name('id_token')
+        if _idt_claim in resp:
+            # Must be about the one that logged in, see section 12.2 in OIDC core
+            _current = self.client_get("service_context").state.multiple_extend_request_args(
+                {}, key, [_idt_claim],
+                ['auth_response', 'token_response', 'refresh_token_response']).get(_idt_claim)
+            if _current:
+                _idt = resp[_idt_claim]
+                if _idt['sub'] != _current['sub']:
+                    raise ParameterError('The ID Tokens are about different subjects')
+                if 'nonce' in _idt and _idt['nonce'] != _current.get('nonce', _idt['nonce']):
+                    raise ParameterError('Someone has messed with "nonce"')
+
+        refresh_access_token.RefreshAccessToken.update_service_context(self, resp, key=key,
+                                                                       **kwargs)
+
     def get_authn_method(self):
         try:
             return self.client_get("service_context").behaviour['token_endpoint_auth_method']
diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 6d42ced..2cefa40 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -877,6 +877,10 @@ class RPHandler(object):
                             exp = _exp
                             token = (access_token, _exp)
 
+                    # A refreshed token replaces the ones that came before it
+                    if typ == 'refresh_token_response' and (indefinite or token):
+                        break
+
         if indefinite:
             return indefinite[0]
         else:
-- 
2.43.0


From 503a9b909ddf688081dbecb1d7d7f779be60e169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 06/80] fix: a logout token ends the session its session ID
 names

---
 src/oidcrp/rp_handler.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 2cefa40..592aaeb 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -975,16 +975,20 @@ def backchannel_logout(client, request='', request_args=None):
     else:
         logger.debug("Request verified OK")
 
-    # Find the subject through 'sid' or 'sub'
-    sub = req[verified_claim_name('logout_token')].get('sub')
-    sid = None
-    if not sub:
-        sid = req[verified_claim_name('logout_token')].get('sid')
+    # Find the session through 'sid' or 'sub'. 'sid' names one session while a subject
+    # may have several of them.
+    _logout_token = req[verified_claim_name('logout_token')]
+    sub = _logout_token.get('sub')
+    sid = _logout_token.get('sid')
 
     if not sub and not sid:
         raise MessageException('Neither "sid" nor "sub"')
-    elif sub:
-        _state = _context.state.get_state_by_sub(sub)
-    elif sid:
-        _state = _context.state.get_state_by_sid(sid)
-    return _state
+
+    if sid:
+        try:
+            return _context.state.get_state_by_sid(sid)
+        except KeyError:
+            if not sub:
+                raise
+
+    return _context.state.get_state_by_sub(sub)
-- 
2.43.0


From 3a54afc6a54242f3088a6ad39e9c43187c157b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 07/80] fix: get_user_info without an explicit access token
 uses the session's own

---
 src/oidcrp/rp_handler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 592aaeb..23c56a0 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -594,6 +594,10 @@ class RPHandler(object):
             _arg = client.client_get("service_context").state.multiple_extend_request_args(
                 {}, state, ['access_token'],
                 ['auth_response', 'token_response', 'refresh_token_response'])
+            try:
+                access_token = _arg['access_token']
+            except KeyError:
+                raise OidcServiceError('No access token')
 
         request_args = {'access_token': access_token}
 
-- 
2.43.0


From 8907c071fd623aff4e087771e4c252b22f51a3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 08/80] fix: say so when a needed service isn't configured

---
 src/oidcrp/oauth2/__init__.py | 4 +---
 src/oidcrp/rp_handler.py      | 5 ++---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/oidcrp/oauth2/__init__.py b/src/oidcrp/oauth2/__init__.py
index 2ee8fa3..7e2c255 100755
--- a/src/oidcrp/oauth2/__init__.py
+++ b/src/oidcrp/oauth2/__init__.py
@@ -276,9 +276,7 @@ def dynamic_provider_info_discovery(client: Client, behaviour_args: Optional[dic
     :param behaviour_args:
     :param client: A :py:class:`oidcrp.oidc.Client` instance
     """
-    try:
-        client.get_service('provider_info')
-    except KeyError:
+    if client.get_service('provider_info') is None:
         raise ConfigurationError(
             'Can not do dynamic provider info discovery')
     else:
diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 23c56a0..c9444d7 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -912,9 +912,8 @@ class RPHandler(object):
         if client is None:
             client = self.get_client_from_session_key(state)
 
-        try:
-            srv = client.client_get('service', 'end_session')
-        except KeyError:
+        srv = client.client_get('service', 'end_session')
+        if srv is None:
             raise OidcServiceError("Does not know how to logout")
 
         if post_logout_redirect_uri:
-- 
2.43.0


From 1e3245ecbcd4d7582c04d7674437d20c9107128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 09/80] fix: a login without ID Token does not need a 'sub' in
 the user info

---
 src/oidcrp/rp_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index c9444d7..32a8149 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -813,7 +813,7 @@ class RPHandler(object):
 
         if _id_token:
             _context.state.store_sub2state(_id_token['sub'], _state)
-        else:
+        elif 'sub' in inforesp:
             _context.state.store_sub2state(inforesp['sub'], _state)
 
         return {
-- 
2.43.0


From f5004d28c2c69433ed3673710254648e659fb2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 10/80] fix: post_logout_redirect_uris may be configured as a
 string

---
 src/oidcrp/oidc/end_session.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/end_session.py b/src/oidcrp/oidc/end_session.py
index df4d2d4..ae64657 100644
--- a/src/oidcrp/oidc/end_session.py
+++ b/src/oidcrp/oidc/end_session.py
@@ -63,7 +63,9 @@ class EndSession(Service):
                     request_args['post_logout_redirect_uri'] = _uri[0]
             else:
                 _uri = _context.callback.get("post_logout_redirect_uris")
-                if _uri:
+                if isinstance(_uri, str) and _uri:
+                    request_args['post_logout_redirect_uri'] = _uri
+                elif _uri:
                     request_args['post_logout_redirect_uri'] = _uri[0]
 
         return request_args, {}
-- 
2.43.0


From 2edabf127a5ed1ca117b30f848c77caee1f0a71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:31 +0000
Subject: [PATCH 11/80] fix: a wrongly tagged or foreign JWT is not a response
 from the issuer

---
 src/oidcrp/service.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index ddf5408..1bd4813 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -477,7 +477,11 @@ class Service(ImpExp):
         args['allowed_enc_encs'] = enc_algs['enc']
         _jwt = JWT(key_jar=_context.keyjar, **args)
         _jwt.iss = _context.client_id
-        return _jwt.unpack(info)
+        _info = _jwt.unpack(info)
+        # The key jar may contain keys that belong to others than the issuer
+        if _context.issuer and _info.get('iss', _context.issuer) != _context.issuer:
+            raise ResponseError('Not signed by the issuer')
+        return _info
 
     def _do_response(self, info, sformat, **kwargs):
         _context = self.client_get("service_context")
@@ -493,7 +497,7 @@ class Service(ImpExp):
                 # then two can be.
                 try:
                     resp = self.response_cls().deserialize(
-                        info, 'jwt', iss=_context.issuer, **kwargs)
+                        self._do_jwt(info), 'dict', iss=_context.issuer, **kwargs)
                 except Exception:
                     pass
 
-- 
2.43.0


From 01d53e12edce6e000c062ec24b7f7109347194ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 12/80] fix: a claim source can't replace the subject and
 aggregated claims must be signed

---
 src/oidcrp/oidc/__init__.py |  4 +++-
 src/oidcrp/oidc/userinfo.py | 12 +++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oidc/__init__.py b/src/oidcrp/oidc/__init__.py
index df9db5e..b08d847 100755
--- a/src/oidcrp/oidc/__init__.py
+++ b/src/oidcrp/oidc/__init__.py
@@ -3,6 +3,7 @@ import logging
 
 from oidcrp.client_auth import BearerHeader
 from oidcrp.oidc.registration import CALLBACK_URIS
+from oidcrp.oidc.userinfo import PROTECTED_CLAIMS
 
 try:
     from json import JSONDecodeError
@@ -164,7 +165,8 @@ class RP(oauth2.Client):
                                                        _resp.reason))
 
                     claims = [value for value, src in
-                              userinfo["_claim_names"].items() if src == csrc]
+                              userinfo["_claim_names"].items() if
+                              src == csrc and value not in PROTECTED_CLAIMS]
 
                     if set(claims) != set(_uinfo.keys()):
                         logger.warning(
diff --git a/src/oidcrp/oidc/userinfo.py b/src/oidcrp/oidc/userinfo.py
index 6c93b80..86aa64e 100644
--- a/src/oidcrp/oidc/userinfo.py
+++ b/src/oidcrp/oidc/userinfo.py
@@ -17,6 +17,9 @@ UI2REG = {
     'encenc': 'userinfo_encrypted_response_enc'
 }
 
+# Claims that are never left to a claim source
+PROTECTED_CLAIMS = ['sub', '_claim_names', '_claim_sources']
+
 
 def carry_state(request_args=None, **kwargs):
     """
@@ -91,9 +94,16 @@ class UserInfo(Service):
                             'Error encountered while unpacking aggregated '
                             'claims'.format(err))
                     else:
+                        # Must be signed with a key that belongs to the claim source
+                        _header = aggregated_claims.jws_header or {}
+                        _alg = _header.get('alg') or 'none'
+                        if _alg.lower() == 'none' or _alg.startswith('HS'):
+                            logger.warning('Aggregated claims that are not signed')
+                            continue
+
                         claims = [value for value, src in
                                   response["_claim_names"].items() if
-                                  src == csrc]
+                                  src == csrc and value not in PROTECTED_CLAIMS]
 
                         for key in claims:
                             response[key] = aggregated_claims[key]
-- 
2.43.0


From bea8b98fb1cfe79203d33a7c9401edfc5725a36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 13/80] fix: every request that leads to an ID Token has a
 nonce and the given scope is not modified

---
 src/oidcrp/oidc/authorization.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index 5845640..a0789d9 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -78,29 +78,36 @@ class Authorization(authorization.Authorization):
                     raise ValueError('Invalid nonce')
         return response
 
+    @staticmethod
+    def _id_token_expected(response_type):
+        """Will the use of this response type, eventually, lead to an ID Token being returned."""
+        if not isinstance(response_type, str):
+            response_type = ' '.join(response_type)
+        _values = response_type.split()
+        return 'code' in _values or 'id_token' in _values
+
     def oidc_pre_construct(self, request_args=None, post_args=None, **kwargs):
         _context = self.client_get("service_context")
         if request_args is None:
             request_args = {}
 
-        try:
-            _response_types = [request_args["response_type"]]
-        except KeyError:
+        if "response_type" not in request_args:
             _response_types = _context.behaviour.get('response_types')
             if _response_types:
                 request_args["response_type"] = _response_types[0]
             else:
                 request_args["response_type"] = "code"
 
-        # For OIDC 'openid' is required in scope
-        if 'scope' not in request_args:
-            request_args['scope'] = _context.behaviour.get("scope", ["openid"])
-        elif 'openid' not in request_args['scope']:
-            request_args['scope'].append('openid')
+        # For OIDC 'openid' is required in scope. The list given is someone else's, leave it as is.
+        _scope = request_args.get('scope', _context.behaviour.get("scope", ["openid"]))
+        _scope = _scope.split() if isinstance(_scope, str) else list(_scope)
+        if 'openid' not in _scope:
+            _scope.append('openid')
+        request_args['scope'] = _scope
 
         # 'code' and/or 'id_token' in response_type means an ID Roken
         # will eventually be returnedm, hence the need for a nonce
-        if "code" in _response_types or "id_token" in _response_types:
+        if self._id_token_expected(request_args["response_type"]):
             if "nonce" not in request_args:
                 request_args["nonce"] = rndstr(32)
 
@@ -214,8 +221,7 @@ class Authorization(authorization.Authorization):
         """
         _context = self.client_get("service_context")
         if 'openid' in req['scope']:
-            _response_type = req['response_type'][0]
-            if 'id_token' in _response_type or 'code' in _response_type:
+            if self._id_token_expected(req['response_type']):
                 _context.state.store_nonce2state(req['nonce'], req['state'])
 
         if 'offline_access' in req['scope']:
-- 
2.43.0


From 5070561656531b5d553f56e9c9f5c9e0167b5649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 14/80] fix: keep every query parameter of an endpoint

---
 src/oidcrp/util.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index 17e0d51..d558e72 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -10,7 +10,8 @@ import ssl
 import string
 import sys
 from typing import Optional
-from urllib.parse import parse_qs
+from urllib.parse import parse_qsl
+from urllib.parse import urlencode
 from urllib.parse import urlsplit
 from urllib.parse import urlunsplit
 
@@ -110,12 +111,14 @@ def get_http_url(url, req, method='GET'):
     """
     if method in ["GET", "DELETE"]:
         if req.keys():
-            _req = req.copy()
             comp = urlsplit(str(url))
-            if comp.query:
-                _req.update(parse_qs(comp.query))
+            _query = str(req.to_urlencoded())
+            # The endpoint's own query is kept
+            _own = [(k, v) for k, v in parse_qsl(comp.query, keep_blank_values=True)
+                    if k not in req]
+            if _own:
+                _query = '&'.join([part for part in [_query, urlencode(_own)] if part])
 
-            _query = str(_req.to_urlencoded())
             return urlunsplit((comp.scheme, comp.netloc, comp.path,
                                _query, comp.fragment))
 
-- 
2.43.0


From 61cfe39280a9042304651a70151ade0148ab359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 15/80] fix: configured request arguments decide which redirect
 URI is used and are not modified

---
 src/oidcrp/rp_handler.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 32a8149..c2fca68 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -1,3 +1,4 @@
+import copy
 from inspect import currentframe
 import logging
 import sys
@@ -386,30 +387,28 @@ class RPHandler(object):
 
         _context = client.client_get("service_context")
 
-        _nonce = rndstr(24)
-        _response_type = self._get_response_type(_context, req_args)
+        # What is configured and, trumping that, what is wanted for this request
+        _req_args = copy.deepcopy(_context.config.get("request_args")) or {}
+        if 'claims' in _req_args:
+            _req_args["claims"] = Claims(**_req_args["claims"])
+        if req_args is not None:
+            _req_args.update(req_args)
+
+        _response_type = self._get_response_type(_context, _req_args)
         request_args = {
             'redirect_uri': pick_redirect_uri(_context,
-                                              request_args=req_args,
+                                              request_args=_req_args,
                                               response_type=_response_type),
             'scope': _context.get('behaviour')['scope'],
             'response_type': _response_type,
-            'nonce': _nonce
+            'nonce': rndstr(24)
         }
-
-        _req_args = _context.config.get("request_args")
-        if _req_args:
-            if 'claims' in _req_args:
-                _req_args["claims"] = Claims(**_req_args["claims"])
-            request_args.update(_req_args)
-
-        if req_args is not None:
-            request_args.update(req_args)
+        request_args.update(_req_args)
 
         # Need a new state for a new authorization request
         _state = _context.state.create_state(_context.get('issuer'))
         request_args['state'] = _state
-        _context.state.store_nonce2state(_nonce, _state)
+        _context.state.store_nonce2state(request_args['nonce'], _state)
 
         logger.debug('Authorization request args: {}'.format(request_args))
 
-- 
2.43.0


From e42cd421bbd8e047933ad89e1531439e5512ecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:36 +0000
Subject: [PATCH 16/80] fix: use the system's random source for state, nonce
 and code verifier

---
 src/oidcrp/util.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index d558e72..419470d 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -6,6 +6,7 @@ import io
 import json
 import logging
 import os
+from random import SystemRandom
 import ssl
 import string
 import sys
@@ -19,11 +20,8 @@ from oidcmsg.exception import UnSupported
 from oidcmsg.oauth2 import is_error_message
 import yaml
 
-# Since SystemRandom is not available on all systems
-try:
-    import SystemRandom as rnd
-except ImportError:
-    import random as rnd
+# Values that must not be possible to guess are made using this
+rnd = SystemRandom()
 
 from oidcrp.defaults import BASECHR
 from oidcrp.exception import ConfigurationError
-- 
2.43.0


From cd700382c6e6f9fe7fdcc72e4f49146468270d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 17/80] fix: only the code is taken from the authorization
 response

---
 src/oidcrp/oauth2/access_token.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/access_token.py b/src/oidcrp/oauth2/access_token.py
index 285a51f..8e52538 100644
--- a/src/oidcrp/oauth2/access_token.py
+++ b/src/oidcrp/oauth2/access_token.py
@@ -49,7 +49,8 @@ class AccessToken(Service):
                                                    'auth_request', _state, parameters)
 
         _args = _context.state.extend_request_args(_args, oauth2.AuthorizationResponse,
-                                                   'auth_response', _state, parameters)
+                                                   'auth_response', _state,
+                                                   [p for p in parameters if p in ['code', 'state']])
 
         if "grant_type" not in _args:
             _args["grant_type"] = "authorization_code"
-- 
2.43.0


From 6d41317caaa63c6d5d6e87fa429cd4c3374a7489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 18/80] fix: HTTP Basic credentials use standard base64

---
 src/oidcrp/client_auth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 2a480bb..13cf852 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -79,7 +79,7 @@ class ClientSecretBasic(ClientAuthnMethod):
 
     The upshot of this is to construct an Authorization header that has the
     value 'Basic <token>' where <token> is username and password concatenated
-    together with a ':' in between and then URL safe base64 encoded.
+    together with a ':' in between and then base64 encoded.
 
     Note that both username and password
     """
@@ -118,7 +118,7 @@ class ClientSecretBasic(ClientAuthnMethod):
         user = self._get_user(service, **kwargs)
 
         credentials = "{}:{}".format(quote_plus(user), quote_plus(passwd))
-        return base64.urlsafe_b64encode(credentials.encode("utf-8")).decode("utf-8")
+        return base64.b64encode(credentials.encode("utf-8")).decode("utf-8")
 
     @staticmethod
     def _with_or_without_client_id(request, service):
-- 
2.43.0


From f585383c4fd31e3dfe6c921cca1b2035a977ace0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 19/80] fix: using a token must not change the request class

---
 src/oidcrp/client_auth.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 13cf852..3fa7afa 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -260,6 +260,8 @@ def find_token(request, token_type, service, **kwargs):
         else:
             del request[token_type]
             # Required under certain circumstances :-) not under other
+            # The message class is shared, don't change it.
+            request.c_param = dict(request.c_param)
             request.c_param[token_type] = SINGLE_OPTIONAL_STRING
             return _token
 
-- 
2.43.0


From 8fe8a2568491d8649a6ef57b4b645b01ccb67976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:55 +0000
Subject: [PATCH 20/80] fix: sign client assertions with the secret or the
 private key as the method requires

---
 src/oidcrp/client_auth.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 3fa7afa..e27ad50 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -5,6 +5,7 @@ from urllib.parse import quote_plus
 
 from cryptojwt.exception import MissingKey
 from cryptojwt.exception import UnsupportedAlgorithm
+from cryptojwt.jwk.hmac import SYMKey
 from cryptojwt.jws.jws import SIGNER_ALGS
 from cryptojwt.jws.utils import alg2keytype
 from oidcmsg.message import VREQUIRED
@@ -397,6 +398,16 @@ class JWSAuthnMethod(ClientAuthnMethod):
             raise AuthnFailure("Missing algorithm specification")
         return algorithm
 
+    @staticmethod
+    def rank_algorithms(algs):
+        """
+        The algorithms that can be used with this method, the ones that fits best first.
+
+        :param algs: List of algorithm names
+        :return: List of algorithm names
+        """
+        return algs
+
     @staticmethod
     def get_signing_key_from_keyjar(algorithm, service_context):
         """
@@ -458,9 +469,12 @@ class JWSAuthnMethod(ClientAuthnMethod):
         if 'authn_endpoint' in kwargs and kwargs['authn_endpoint'] in ['token_endpoint']:
             reg_resp = context.registration_response
             if reg_resp:
-                algorithm = reg_resp["token_endpoint_auth_signing_alg"]
-            else:
-                algorithm = context.client_preferences.get("token_endpoint_auth_signing_alg")
+                algorithm = reg_resp.get("token_endpoint_auth_signing_alg")
+
+            if not algorithm:
+                algorithm = context.behaviour.get(
+                    "token_endpoint_auth_signing_alg",
+                    context.client_preferences.get("token_endpoint_auth_signing_alg"))
                 if algorithm is None:
                     _pi = context.provider_info
                     try:
@@ -468,7 +482,7 @@ class JWSAuthnMethod(ClientAuthnMethod):
                     except KeyError:
                         algorithm = "RS256"  # default
                     else:
-                        for alg in algs:  # pick the first one I support and have keys for
+                        for alg in self.rank_algorithms(algs):  # pick the first one I support and have keys for
                             if alg in SIGNER_ALGS and self.get_signing_key_from_keyjar(alg,
                                                                                        context):
                                 algorithm = alg
@@ -566,7 +580,13 @@ class ClientSecretJWT(JWSAuthnMethod):
     def choose_algorithm(self, context="client_secret_jwt", **kwargs):
         return JWSAuthnMethod.choose_algorithm(context, **kwargs)
 
+    @staticmethod
+    def rank_algorithms(algs):
+        return sorted(algs, key=lambda alg: not alg.startswith("HS"))
+
     def get_signing_key_from_keyjar(self, algorithm, service_context):
+        if alg2keytype(algorithm) == "oct" and service_context.client_secret:
+            return [SYMKey(key=service_context.client_secret, use="sig")]
         return service_context.keyjar.get_signing_key(alg2keytype(algorithm), alg=algorithm)
 
 
@@ -578,6 +598,10 @@ class PrivateKeyJWT(JWSAuthnMethod):
     def choose_algorithm(self, context="private_key_jwt", **kwargs):
         return JWSAuthnMethod.choose_algorithm(context, **kwargs)
 
+    @staticmethod
+    def rank_algorithms(algs):
+        return [alg for alg in algs if not alg.startswith("HS")]
+
     def get_signing_key_from_keyjar(self, algorithm, service_context=None):
         return service_context.keyjar.get_signing_key(alg2keytype(algorithm), "", alg=algorithm)
 
-- 
2.43.0


From ec5fd8edc9dba4bc2bd02b5891ef8c5ee5d3251b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 21/80] fix: a client's settings are its own, the configuration
 isn't modified

---
 src/oidcrp/service_context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index f68f81c..44f3f08 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -147,7 +147,8 @@ class ServiceContext(OidcContext):
         # Dynamic information
         for param in ['client_secret', 'client_id', 'redirect_uris', 'provider_info',
                       'behaviour', 'callback', 'issuer']:
-            _val = config.get(param, _def_value[param])
+            # The configuration may be shared, so make sure it isn't modified
+            _val = copy.deepcopy(config.get(param, _def_value[param]))
             self.set(param, _val)
             if param == 'client_secret' and _val:
                 self.keyjar.add_symmetric('', _val)
-- 
2.43.0


From a56edf7b55d19e36b9e2060c9bb481487c383712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 22/80] fix: use the client authentication method the
 registration response names

---
 src/oidcrp/oidc/registration.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index 5611238..3e835ed 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -266,10 +266,13 @@ class Registration(Service):
         return request_args
 
     def update_service_context(self, resp, key='', **kwargs):
-        if "token_endpoint_auth_method" not in resp:
+        _context = self.client_get("service_context")
+        if "token_endpoint_auth_method" in resp:
+            # It's the provider that decides
+            _context.behaviour["token_endpoint_auth_method"] = resp["token_endpoint_auth_method"]
+        else:
             resp["token_endpoint_auth_method"] = "client_secret_basic"
 
-        _context = self.client_get("service_context")
         _context.registration_response = resp
         _client_id = resp.get("client_id")
         if _client_id:
-- 
2.43.0


From 31e23ec8f994140c60a4b4a9e2ec3c03c50e6963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 23/80] fix: the client authentication method may be given as a
 list

---
 src/oidcrp/oidc/access_token.py         | 5 ++++-
 src/oidcrp/oidc/refresh_access_token.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oidc/access_token.py b/src/oidcrp/oidc/access_token.py
index 7131ae9..c805293 100644
--- a/src/oidcrp/oidc/access_token.py
+++ b/src/oidcrp/oidc/access_token.py
@@ -98,6 +98,9 @@ class AccessToken(access_token.AccessToken):
 
     def get_authn_method(self):
         try:
-            return self.client_get("service_context").behaviour['token_endpoint_auth_method']
+            _method = self.client_get("service_context").behaviour['token_endpoint_auth_method']
         except KeyError:
             return self.default_authn_method
+
+        # A list is ordered by preference
+        return _method if isinstance(_method, str) else _method[0]
diff --git a/src/oidcrp/oidc/refresh_access_token.py b/src/oidcrp/oidc/refresh_access_token.py
index b9f01bd..33f1fb3 100644
--- a/src/oidcrp/oidc/refresh_access_token.py
+++ b/src/oidcrp/oidc/refresh_access_token.py
@@ -33,6 +33,9 @@ class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
 
     def get_authn_method(self):
         try:
-            return self.client_get("service_context").behaviour['token_endpoint_auth_method']
+            _method = self.client_get("service_context").behaviour['token_endpoint_auth_method']
         except KeyError:
             return self.default_authn_method
+
+        # A list is ordered by preference
+        return _method if isinstance(_method, str) else _method[0]
-- 
2.43.0


From bd0864a7b3cb65bbc6ba289172beee188edb968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 24/80] fix: DPoP proofs on refresh, without query in htu,
 never with a shared key, and none if the provider doesn't support it

---
 src/oidcrp/oauth2/add_on/dpop.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index 13981e1..cc3a3d7 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -1,4 +1,6 @@
 from typing import Optional
+from urllib.parse import urlsplit
+from urllib.parse import urlunsplit
 import uuid
 
 from cryptojwt.jwk.jwk import key_from_jwk_dict
@@ -83,6 +85,11 @@ class DPoPProof(Message):
             return None
 
 
+def is_asymmetric(alg: str) -> bool:
+    # The key is disclosed in the proof, a secret key must not be.
+    return alg[:2] in ("RS", "ES")
+
+
 def dpop_header(service_context: ServiceContext,
                 service_endpoint: str,
                 http_method: str,
@@ -102,13 +109,13 @@ def dpop_header(service_context: ServiceContext,
     dpop_key = service_context.add_on['dpop'].get('key')
 
     if not dpop_key:
-        algs_supported = provider_info["dpop_signing_alg_values_supported"]
+        algs_supported = provider_info.get("dpop_signing_alg_values_supported")
         if not algs_supported:  # does not support DPoP
             return headers
 
         chosen_alg = ''
         for alg in service_context.add_on['dpop']["sign_algs"]:
-            if alg in algs_supported:
+            if alg in algs_supported and is_asymmetric(alg):
                 chosen_alg = alg
                 break
 
@@ -126,7 +133,8 @@ def dpop_header(service_context: ServiceContext,
         "jwk": dpop_key.serialize(),
         "jti": uuid.uuid4().hex,
         "htm": http_method,
-        "htu": provider_info[service_endpoint],
+        # without query and fragment parts
+        "htu": urlunsplit(urlsplit(provider_info[service_endpoint])[:3] + ('', '')),
         "iat": utc_time_sans_frac()
     }
 
@@ -159,7 +167,8 @@ def add_support(services, signing_algorithms):
     }
     _service.construct_extra_headers.append(dpop_header)
 
-    # The same for userinfo requests
-    _userinfo_service = services.get("userinfo")
-    if _userinfo_service:
-        _userinfo_service.construct_extra_headers.append(dpop_header)
\ No newline at end of file
+    # The same for refresh and userinfo requests
+    for name in ["refresh_token", "userinfo"]:
+        _other_service = services.get(name)
+        if _other_service:
+            _other_service.construct_extra_headers.append(dpop_header)
-- 
2.43.0


From cceb3c443c874a4e676f20ac4979078fe55d9eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 25/80] fix: an issuer mismatch is only allowed if the setting
 says so

---
 src/oidcrp/oauth2/provider_info_discovery.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/oauth2/provider_info_discovery.py b/src/oidcrp/oauth2/provider_info_discovery.py
index 4aa4033..2d90ab2 100644
--- a/src/oidcrp/oauth2/provider_info_discovery.py
+++ b/src/oidcrp/oauth2/provider_info_discovery.py
@@ -66,9 +66,8 @@ class ProviderInfoDiscovery(Service):
 
         # In some cases we can live with the two URLs not being
         # the same. But this is an excepted that has to be explicit
-        try:
-            self.client_get("service_context").allow['issuer_mismatch']
-        except KeyError:
+        _allow = self.client_get("service_context").allow
+        if not _allow.get('issuer_mismatch'):
             if _issuer != _pcr_issuer:
                 raise OidcServiceError(
                     "provider info issuer mismatch '%s' != '%s'" % (
-- 
2.43.0


From 0153dfebd9111fe45f99168d80908e4750dec2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 26/80] fix: a redirect or a 4xx answer with a valid body isn't
 a success

---
 src/oidcrp/oauth2/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/oidcrp/oauth2/__init__.py b/src/oidcrp/oauth2/__init__.py
index 7e2c255..835462d 100755
--- a/src/oidcrp/oauth2/__init__.py
+++ b/src/oidcrp/oauth2/__init__.py
@@ -178,6 +178,11 @@ class Client(Entity):
 
         if 'error' in response:
             pass
+        elif isinstance(response, dict) and 'http_response' in response:
+            # There is nothing to collect information from in a redirect
+            if service.response_body_type != 'html':
+                raise OidcServiceError("HTTP redirect [{}] from {}".format(
+                    response['http_response'].status_code, url))
         else:
             try:
                 kwargs['key'] = kwargs['state']
@@ -260,6 +265,10 @@ class Client(Entity):
             except JSONDecodeError:  # So it's not JSON assume text then
                 err_resp = {'error': reqresp.text}
 
+            if not is_error_message(err_resp):
+                raise OidcServiceError("HTTP ERROR: %s [%s] on %s" % (
+                    reqresp.text, reqresp.status_code, reqresp.url))
+
             err_resp['status_code'] = reqresp.status_code
             return err_resp
         else:
-- 
2.43.0


From c5659a4ea4bbadd235c730a0d701cae4a35fec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 27/80] fix: having no listed value in common with the provider
 is an error, also when it changed

---
 src/oidcrp/oidc/provider_info_discovery.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/provider_info_discovery.py b/src/oidcrp/oidc/provider_info_discovery.py
index 230ce27..7314f4b 100644
--- a/src/oidcrp/oidc/provider_info_discovery.py
+++ b/src/oidcrp/oidc/provider_info_discovery.py
@@ -129,6 +129,9 @@ class ProviderInfoDiscovery(provider_info_discovery.ProviderInfoDiscovery):
                             _pref))
                     _pvals = vals
 
+            # What was settled on with other provider info doesn't count
+            _behaviour.pop(_pref, None)
+
             if isinstance(vals, str):
                 if vals in _pvals:
                     _behaviour[_pref] = vals
@@ -154,7 +157,7 @@ class ProviderInfoDiscovery(provider_info_discovery.ProviderInfoDiscovery):
                                 _behaviour[_pref] = val
                                 break
 
-            if _pref not in _behaviour:
+            if vals and not _behaviour.get(_pref):
                 raise ConfigurationError("OP couldn't match preference:%s" % _pref, pcr)
 
         for key, val in _context.client_preferences.items():
-- 
2.43.0


From 4a13a1e2cbe156f1197433f39d0492bf1e9c4c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 28/80] fix: a client without configured scope can't begin an
 authentication

---
 src/oidcrp/rp_handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index c2fca68..14cac74 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -399,10 +399,11 @@ class RPHandler(object):
             'redirect_uri': pick_redirect_uri(_context,
                                               request_args=_req_args,
                                               response_type=_response_type),
-            'scope': _context.get('behaviour')['scope'],
             'response_type': _response_type,
             'nonce': rndstr(24)
         }
+        if 'scope' in _context.get('behaviour'):
+            request_args['scope'] = _context.get('behaviour')['scope']
         request_args.update(_req_args)
 
         # Need a new state for a new authorization request
-- 
2.43.0


From 3927bcef5f97fe5f1e47c067e1001c7172bb99de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:52 +0000
Subject: [PATCH 29/80] fix: the handler's hash_seed wasn't used when URIs are
 constructed

---
 src/oidcrp/rp_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 14cac74..3ca6574 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -185,6 +185,8 @@ class RPHandler(object):
 
         _context.base_url = self.base_url
         _context.jwks_uri = self.jwks_uri
+        if not _cnf.get('hash_seed'):
+            _context.hash_seed = self.hash_seed
         return client
 
     def do_provider_info(self,
-- 
2.43.0


From ce72658d3696a1e989583007ab85e47bb6b8691f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 30/80] fix: the hash in a constructed URI couldn't be mapped
 back to the issuer

---
 src/oidcrp/rp_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 3ca6574..0f74318 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -289,6 +289,8 @@ class RPHandler(object):
                 request_args.update({k: v for k, v in behaviour_args.items() if k in _params})
 
             load_registration_response(client, request_args=request_args)
+            # The constructed URIs contain a hash that identifies the issuer
+            self.hash2issuer.update(_context.hash2issuer)
 
     def do_webfinger(self, user: str) -> Client:
         """
-- 
2.43.0


From 1a55476c1890d5341762a443201e036ce779a83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 31/80] fix: the URIs registered are the ones that are used,
 configured URIs before constructed ones

---
 src/oidcrp/oidc/registration.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index 3e835ed..fd7f087 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -159,6 +159,12 @@ def add_callbacks(context, ignore: Optional[List[str]] = None):
     if "redirect_uris" not in ignore:
         _redirect_uris = [v for k, v in callbacks.items() if k in ["code", "implicit", "form_post"]]
         callbacks["redirect_uris"] = _redirect_uris
+
+    # What is configured trumps what is constructed
+    for _key in CALLBACK_URIS:
+        _uri = context.config.get(_key)
+        if _uri and _key not in ignore:
+            callbacks[_key] = _uri
     context.set('callback', callbacks)
 
 
@@ -274,6 +280,9 @@ class Registration(Service):
             resp["token_endpoint_auth_method"] = "client_secret_basic"
 
         _context.registration_response = resp
+        if not _context.redirect_uris and 'redirect_uris' not in _context.callback:
+            # They were given as arguments to the registration
+            _context.redirect_uris = resp.get("redirect_uris", [])
         _client_id = resp.get("client_id")
         if _client_id:
             _context.client_id = _client_id
-- 
2.43.0


From 1c7ddab5e4de0aa5e9254c89a78ed674397125f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:27 +0000
Subject: [PATCH 32/80] fix: preferred grant types are stated in the
 registration

---
 src/oidcrp/oidc/registration.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index fd7f087..db07c32 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -260,10 +260,13 @@ class Registration(Service):
 
     def oidc_post_construct(self, request_args=None, **kwargs):
         try:
-            request_args['grant_types'] = response_types_to_grant_types(
-                request_args['response_types'])
+            _needed = response_types_to_grant_types(request_args['response_types'])
         except KeyError:
             pass
+        else:
+            # besides the ones that are preferred
+            _preferred = request_args.get('grant_types', [])
+            request_args['grant_types'] = list(dict.fromkeys([*_preferred, *_needed]))
 
         # If a Client can use jwks_uri, it MUST NOT use jwks.
         if 'jwks_uri' in request_args and 'jwks' in request_args:
-- 
2.43.0


From c2df89f13021e40ef470b4f7608fd8ae34118a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 33/80] fix: response types with the values in another order
 got no redirect URI

---
 src/oidcrp/oidc/registration.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index db07c32..12fc6b4 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -1,4 +1,5 @@
 import hashlib
+from itertools import permutations
 import logging
 from typing import List
 from typing import Optional
@@ -125,8 +126,9 @@ def add_callbacks(context, ignore: Optional[List[str]] = None):
         # code and/or implicit
         if _in_config_or_client_preferences(context.config, "response_types", "code"):
             _uris['code'] = True
-        for rt in ["id_token", "id_token token", "code id_token token", "code id_token",
-                   "code token"]:
+        # The order of the values in a response type doesn't matter
+        for rt in [" ".join(p) for _rt in ["token", *rt2gt.keys()] if _rt != "code"
+                   for p in permutations(_rt.split(" "))]:
             if _in_config_or_client_preferences(context.config, "response_types", rt):
                 _uris["implicit"] = True
                 break
-- 
2.43.0


From 861d4eb92a2e5d4d49ec7a4fb874b81b811969cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 34/80] fix: cookies that are tampered with, or have the
 separator in the load, made parse_cookie crash

---
 src/oidcrp/cookie.py | 50 +++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/oidcrp/cookie.py b/src/oidcrp/cookie.py
index 7ece2ef..5512802 100755
--- a/src/oidcrp/cookie.py
+++ b/src/oidcrp/cookie.py
@@ -6,9 +6,11 @@ import logging
 import os
 import sys
 import time
+from urllib.parse import quote
+from urllib.parse import unquote
 
+from cryptography.exceptions import InvalidTag
 from cryptography.hazmat.primitives.ciphers.aead import AESGCM
-from cryptojwt.jwe.exception import JWEException
 from cryptojwt.jwe.utils import split_ctx_and_tag
 from cryptojwt.utils import as_bytes
 from cryptojwt.utils import as_unicode
@@ -101,7 +103,10 @@ def _make_hashed_key(parts, hashfunc='sha256'):
     h = hashlib.new(hashfunc)
     for part in parts:
         if part:
-            h.update(as_bytes(part))
+            part = as_bytes(part)
+            # Where one part ends and the next begins matters
+            h.update("{}:".format(len(part)).encode("utf-8"))
+            h.update(part)
     return h.digest()
 
 
@@ -221,23 +226,25 @@ def parse_cookie(name, seed, kaka, enc_key=None):
     if not kaka:
         return None
 
-    seed = as_unicode(seed)
-
     parts = cookie_parts(name, kaka)
     if parts is None:
         return None
-    elif len(parts) == 3:
-        # verify the cookie signature
-        cleartext, timestamp, sig = parts
+    elif not enc_key and len(parts) >= 3:
+        # verify the cookie signature, the separator may appear in the load
+        cleartext = "|".join(parts[:-2])
+        timestamp, sig = parts[-2:]
         if not verify_cookie_signature(sig, seed, cleartext, timestamp):
             raise InvalidCookieSign()
         return cleartext, timestamp
-    elif len(parts) == 4:
+    elif enc_key and len(parts) == 4:
         # encrypted and signed
         timestamp = parts[0]
-        iv = base64.b64decode(parts[1])
-        ciphertext = base64.b64decode(parts[2])
-        tag = base64.b64decode(parts[3])
+        try:
+            iv, ciphertext, tag = [base64.b64decode(part, validate=True) for part in parts[1:]]
+        except ValueError:
+            raise InvalidCookieSign()
+        if len(iv) != 12 or len(tag) != 16:
+            raise InvalidCookieSign()
         ct = ciphertext + tag
 
         # Make sure the key is 32-Bytes long
@@ -249,7 +256,7 @@ def parse_cookie(name, seed, kaka, enc_key=None):
         aad = timestamp.encode('utf-8')
         try:
             cleartext = aesgcm.decrypt(iv, ct, aad)
-        except JWEException:
+        except InvalidTag:
             raise InvalidCookieSign()
         return cleartext.decode('utf-8'), timestamp
     return None
@@ -264,7 +271,12 @@ def cookie_parts(name, kaka):
     :return: A list of parts or None if there is no cookie object with the
         given name
     """
-    cookie_obj = SimpleCookie(as_unicode(kaka))
+    if isinstance(kaka, bytes):
+        try:
+            kaka = kaka.decode("utf-8")
+        except UnicodeDecodeError:
+            return None
+    cookie_obj = SimpleCookie(kaka)
     morsel = cookie_obj.get(name)
     if morsel:
         return morsel.value.split("|")
@@ -356,11 +368,11 @@ class CookieDealer(object):
         # now
         timestamp = str(int(time.time()))
 
-        # create cookie payload
+        # create cookie payload, the separator may appear in the value and the type
         try:
-            cookie_payload = "::".join([value, timestamp, typ])
+            cookie_payload = "::".join([quote(value), timestamp, quote(typ)])
         except TypeError:
-            cookie_payload = "::".join([value[0], timestamp, typ])
+            cookie_payload = "::".join([quote(value[0]), timestamp, quote(typ)])
 
         cookie = make_cookie(cookie_name, cookie_payload, self.srv.seed,
                              expire=ttl, domain=cookie_domain, path=cookie_path,
@@ -386,7 +398,7 @@ class CookieDealer(object):
             except (TypeError, AssertionError):
                 return None
             else:
-                value, _ts, typ = info.split("::")
-                if timestamp == _ts:
-                    return value, _ts, typ
+                parts = info.split("::")
+                if len(parts) == 3 and timestamp == parts[1]:
+                    return unquote(parts[0]), timestamp, unquote(parts[2])
         return None
-- 
2.43.0


From 81b004f25b0d7555a1781b40e308e9dc4afce87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 35/80] fix: WebFinger asked the wrong host for identifiers
 with more than one @, and asked for anything that isn't an identifier; the
 relation configured was ignored, HTTP:// links slipped through

---
 src/oidcrp/oidc/webfinger.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/oidcrp/oidc/webfinger.py b/src/oidcrp/oidc/webfinger.py
index a442a36..ecfb78b 100644
--- a/src/oidcrp/oidc/webfinger.py
+++ b/src/oidcrp/oidc/webfinger.py
@@ -58,7 +58,9 @@ class WebFinger(Service):
                     except KeyError:
                         _http_allowed = False
 
-                    if _href.startswith('http://') and not _http_allowed:
+                    # scheme names are case insensitive
+                    _scheme = urlsplit(_href).scheme
+                    if _scheme == 'http' and not _http_allowed:
                         raise ValueError(
                             'http link not allowed ({})'.format(_href))
 
@@ -84,7 +86,7 @@ class WebFinger(Service):
 
         :param resource:
         """
-        if resource[0] in ['=', '@', '!']:  # Have no process for handling these
+        if not resource or resource[0] in ['=', '@', '!']:  # Have no process for handling these
             raise ValueError('Not allowed resource identifier')
 
         try:
@@ -101,11 +103,9 @@ class WebFinger(Service):
                             part = urlsplit(resource)
                             authority = part[NETLOC]
                         else:
-                            if '@' in _path:
-                                authority = _path.split('@')[1]
-                            else:
-                                authority = _path
-                            resource = 'acct:{}'.format(_path)
+                            # There may be an '@' in the user part
+                            _user, _at, authority = _path.rpartition('@')
+                            resource = 'acct:{}{}{}'.format(_user.replace('@', '%40'), _at, authority)
                     elif part[QUERY]:
                         resource = "https://{}?{}".format(_path, part[QUERY])
                         parts = urlsplit(resource)
@@ -134,7 +134,7 @@ class WebFinger(Service):
                         _path = _path.split(c)[0]
 
                     if '@' in _path:
-                        authority = _path.split('@')[1]
+                        authority = _path.rpartition('@')[2]
                     else:
                         raise ValueError(
                             'No authority part in the resource specification')
@@ -144,9 +144,18 @@ class WebFinger(Service):
                     authority = part[NETLOC]
                     resource = self.create_url(part, [FRAGMENT])
 
+        try:
+            _parsed = urlsplit('//{}'.format(authority))
+            _valid = _parsed.hostname and _parsed.netloc == authority
+            _port = _parsed.port
+        except ValueError:
+            _valid = False
+        if not _valid:
+            raise ValueError('No authority part in the resource specification')
+
         location = WF_URL.format(authority)
         return oidc.WebFingerRequest(
-            resource=resource, rel=OIC_ISSUER).request(location)
+            resource=resource, rel=self.rel).request(location)
 
     def get_request_parameters(self, request_args=None, **kwargs):
 
-- 
2.43.0


From df19dbe87bda03bb160727a670a18c91bc93b6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 36/80] fix: the service definitions, which are shared, got the
 references to the first client

---
 src/oidcrp/service.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index 1bd4813..47401ef 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -627,10 +627,8 @@ def init_services(service_definitions, client_get, client_authn_factory=None):
     """
     service = DLDict()
     for service_name, service_configuration in service_definitions.items():
-        try:
-            kwargs = service_configuration['kwargs']
-        except KeyError:
-            kwargs = {}
+        # The definitions may be shared between clients, so don't modify them
+        kwargs = dict(service_configuration.get('kwargs', {}))
 
         kwargs.update({
             'client_get': client_get,
-- 
2.43.0


From a9a20220d6503fa777908858c90535aa80d499ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:41 +0000
Subject: [PATCH 37/80] fix: a dump of the client state was not a snapshot, had
 Messages in it and missed the registration access token

---
 src/oidcrp/service_context.py | 46 +++++++++++++++++++++++++++++++++++
 src/oidcrp/state_interface.py | 11 +++++++++
 2 files changed, 57 insertions(+)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index 44f3f08..216bcde 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -5,11 +5,14 @@ common between all the services that are used by OAuth2 client or OpenID Connect
 import copy
 import hashlib
 import os
+from typing import List
+from typing import Optional
 
 from cryptojwt.jwk.rsa import RSAKey, import_private_rsa_key_from_file
 from cryptojwt.key_bundle import KeyBundle
 from cryptojwt.utils import as_bytes
 from oidcmsg.context import OidcContext
+from oidcmsg.message import Message
 from oidcmsg.oidc import RegistrationRequest
 from oidcmsg.util import rndstr
 
@@ -65,6 +68,26 @@ DEFAULT_VALUE = {
 }
 
 
+def is_plain(item):
+    """Whether this is something that can be represented in JSON."""
+    if isinstance(item, (dict, Message)):
+        return all(is_plain(v) for v in item.values())
+    if isinstance(item, (list, tuple)):
+        return all(is_plain(v) for v in item)
+    return item is None or isinstance(item, (str, bytes, int, float, bool))
+
+
+def plain_copy(item):
+    """Make a copy that has nothing in common with the original, and with messages as dictionaries."""
+    if isinstance(item, Message):
+        item = item.to_dict()
+    if isinstance(item, dict):
+        return {k: plain_copy(v) for k, v in item.items()}
+    if isinstance(item, (list, tuple)):
+        return [plain_copy(v) for v in item]
+    return item
+
+
 # def add_issuer(conf, issuer):
 #     res = {}
 #     for key, val in conf.items():
@@ -106,6 +129,7 @@ class ServiceContext(OidcContext):
         "post_logout_redirect_uris": None,
         'provider_info': None,
         'redirect_uris': None,
+        "registration_access_token": None,
         "requests_dir": None,
         "register_args": None,
         'registration_response': None,
@@ -195,6 +219,28 @@ class ServiceContext(OidcContext):
     def __setitem__(self, key, value):
         setattr(self, key, value)
 
+    def dump(self, exclude_attributes: Optional[List[str]] = None) -> dict:
+        """
+        :return: A snapshot of the context. Later changes of the context will not affect it.
+        """
+        info = OidcContext.dump(self, exclude_attributes)
+        # What is specific for this process, like a http client, can not be dumped
+        if 'add_on' in info:
+            info['add_on'] = {name: {k: v for k, v in args.items() if is_plain(v)}
+                              for name, args in info['add_on'].items()}
+        return plain_copy(info)
+
+    def load(self, item: dict, init_args: Optional[dict] = None,
+             load_args: Optional[dict] = None):
+        _item = plain_copy(item)
+        # Add ons may have things, added by the configuration, that are not dumped
+        _add_on = self.add_on
+        OidcContext.load(self, _item, init_args=init_args, load_args=load_args)
+        if 'add_on' in _item:
+            self.add_on = {**_add_on, **{name: {**_add_on.get(name, {}), **args}
+                                         for name, args in _item['add_on'].items()}}
+        return self
+
     def filename_from_webname(self, webname):
         """
         A 1<->1 map is maintained between a URL pointing to a file and
diff --git a/src/oidcrp/state_interface.py b/src/oidcrp/state_interface.py
index c697373..dec02f6 100644
--- a/src/oidcrp/state_interface.py
+++ b/src/oidcrp/state_interface.py
@@ -1,5 +1,8 @@
 """A database interface for storing state information."""
+import copy
 import json
+from typing import List
+from typing import Optional
 
 from oidcmsg.impexp import ImpExp
 from oidcmsg.message import Message
@@ -85,6 +88,14 @@ class StateInterface(ImpExp):
         ImpExp.__init__(self)
         self._db = {}
 
+    def dump(self, exclude_attributes: Optional[List[str]] = None) -> dict:
+        # A snapshot, not the database that is in use
+        return copy.deepcopy(ImpExp.dump(self, exclude_attributes))
+
+    def load(self, item: dict, init_args: Optional[dict] = None,
+             load_args: Optional[dict] = None):
+        return ImpExp.load(self, copy.deepcopy(item), init_args=init_args, load_args=load_args)
+
     def get_state(self, key):
         """
         Get the state connected to a given key.
-- 
2.43.0


From 91e825c497f76dd2932d0086abd77a16b9b85d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:41 +0000
Subject: [PATCH 38/80] fix: the DPoP key was not possible to save with the
 rest of the state

---
 src/oidcrp/oauth2/add_on/dpop.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index cc3a3d7..d7cebdb 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -106,7 +106,10 @@ def dpop_header(service_context: ServiceContext,
     """
 
     provider_info = service_context.provider_info
+    # The key is kept as a JWK such that it can be dumped together with the rest of the context
     dpop_key = service_context.add_on['dpop'].get('key')
+    if dpop_key:
+        dpop_key = key_from_jwk_dict(dpop_key)
 
     if not dpop_key:
         algs_supported = provider_info.get("dpop_signing_alg_values_supported")
@@ -124,7 +127,7 @@ def dpop_header(service_context: ServiceContext,
 
         # Mint a new key
         dpop_key = key_by_alg(chosen_alg)
-        service_context.add_on['dpop']['key'] = dpop_key
+        service_context.add_on['dpop']['key'] = dpop_key.serialize(private=True)
         service_context.add_on['dpop']['alg'] = chosen_alg
 
     header_dict = {
-- 
2.43.0


From ec4aad38ee16d83659e9ed8c82c8ee2504ca1f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:41 +0000
Subject: [PATCH 39/80] fix: loading saved services dropped what add ons had
 added to them

---
 src/oidcrp/service.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index 47401ef..0d4db60 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -614,6 +614,22 @@ def gather_constructors(service_methods, construct):
                 construct.append(util.importer(func))
 
 
+class ServiceDict(DLDict):
+    """The services of a client."""
+
+    def load(self, spec: dict, init_args: Optional[dict] = None,
+             load_args: Optional[dict] = None):
+        _new = {}
+        for name, (cls_name, item) in spec.items():
+            _srv = self.db.get(name)
+            if _srv is not None and qualified_name(_srv.__class__) == cls_name:
+                # Keep what it got from the configuration, like what add ons have added
+                _srv.load(item, init_args=init_args, load_args=load_args)
+            else:
+                _new[name] = (cls_name, item)
+        return DLDict.load(self, _new, init_args=init_args, load_args=load_args)
+
+
 def init_services(service_definitions, client_get, client_authn_factory=None):
     """
     Initiates a set of services
@@ -625,7 +641,7 @@ def init_services(service_definitions, client_get, client_authn_factory=None):
     :return: A dictionary, with service name as key and the service instance as
         value.
     """
-    service = DLDict()
+    service = ServiceDict()
     for service_name, service_configuration in service_definitions.items():
         # The definitions may be shared between clients, so don't modify them
         kwargs = dict(service_configuration.get('kwargs', {}))
-- 
2.43.0


From d39377538d52ea27cf685c0d529e1527b5b8da25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:14 +0000
Subject: [PATCH 40/80] fix: the default client configuration, which is shared,
 was given the issuer of the latest client

---
 src/oidcrp/rp_handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 0f74318..c7fdbce 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -159,7 +159,8 @@ class RPHandler(object):
         try:
             _cnf = self.pick_config(issuer)
         except KeyError:
-            _cnf = self.pick_config('')
+            # The default is shared by all issuers that are not configured
+            _cnf = copy.copy(self.pick_config(''))
             _cnf['issuer'] = issuer
 
         try:
-- 
2.43.0


From 8f7b7f089e5edfed33a2f3dad3acf1a92740648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 41/80] fix: an issuer that goes under several names got a new
 client for every login, which lost the logins in progress

---
 src/oidcrp/rp_handler.py | 64 ++++++++++++++++++++++++++++++++++------
 1 file changed, 55 insertions(+), 9 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index c7fdbce..928529a 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -39,6 +39,11 @@ from .util import rndstr
 logger = logging.getLogger(__name__)
 
 
+def same_issuer(issuer: str, other: str) -> bool:
+    """As for the provider info, a trailing slash doesn't make it another issuer."""
+    return bool(issuer) and bool(other) and issuer.rstrip('/') == other.rstrip('/')
+
+
 class RPHandler(object):
     def __init__(self, base_url, client_configs=None, services=None, keyjar=None,
                  hash_seed="", verify_ssl=True, client_authn_factory=None,
@@ -91,6 +96,8 @@ class RPHandler(object):
 
         # keep track on which RP instance that serves which OP
         self.issuer2rp = {}
+        # and which one was set up for which name, as used in the configuration or by the user
+        self.name2rp = {}
         self.hash2issuer = {}
         self.httplib = http_lib
 
@@ -145,6 +152,41 @@ class RPHandler(object):
 
         return client.client_get("service_context").state.get_state(key)
 
+    def _config_name(self, iss_id: str) -> str:
+        """
+        An issuer can be configured under another name than the one given here.
+
+        :param iss_id: Issuer ID
+        :return: The key to the client configuration, the Issuer ID itself if there is none.
+        """
+        if iss_id not in self.client_configs:
+            for name, conf in self.client_configs.items():
+                if name and (same_issuer(name, iss_id) or same_issuer(conf.get('issuer'), iss_id)):
+                    return name
+        return iss_id
+
+    def _known_client(self, iss_id: str) -> Optional[Client]:
+        """
+        Find the client, if there is one, that serves an issuer.
+
+        :param iss_id: Issuer ID
+        :return: A Client instance or None
+        """
+        client = self.issuer2rp.get(iss_id)
+        if client is not None:
+            return client
+
+        # Not if another client has been put in its place
+        client = self.name2rp.get(iss_id)
+        if client is not None and any(client is _rp for _rp in self.issuer2rp.values()):
+            return client
+
+        if iss_id not in self.client_configs:
+            for issuer, client in self.issuer2rp.items():
+                if same_issuer(issuer, iss_id):
+                    return client
+        return None
+
     def init_client(self, issuer):
         """
         Initiate a Client instance. Specifically which Client class is used
@@ -336,20 +378,21 @@ class RPHandler(object):
 
             logger.debug("Connecting to previously unknown OP")
             temporary_client = self.do_webfinger(user)
+            iss_id = temporary_client.client_get("service_context").get('issuer')
         else:
             temporary_client = None
 
-        try:
-            client = self.issuer2rp[iss_id]
-        except KeyError:
-            if temporary_client:
-                client = temporary_client
-            else:
-                logger.debug("Creating new client: %s", iss_id)
-                client = self.init_client(iss_id)
-        else:
+        iss_id = self._config_name(iss_id)
+        client = self._known_client(iss_id)
+        if client is not None:
             return client
 
+        if temporary_client and iss_id not in self.client_configs:
+            client = temporary_client
+        else:
+            logger.debug("Creating new client: %s", iss_id)
+            client = self.init_client(iss_id)
+
         logger.debug("Get provider info")
         issuer = self.do_provider_info(client, behaviour_args=behaviour_args)
 
@@ -357,6 +400,9 @@ class RPHandler(object):
         self.do_client_registration(client, iss_id, behaviour_args=behaviour_args)
 
         self.issuer2rp[issuer] = client
+        # If the provider uses another name than the one the sessions are bound to
+        self.issuer2rp[client.client_get("service_context").get('issuer')] = client
+        self.name2rp[iss_id] = client
         return client
 
     def _get_response_type(self, context, req_args: Optional[dict] = None):
-- 
2.43.0


From df07146e4e53bd576675bb4a16fe8942ae85fc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:36 +0000
Subject: [PATCH 42/80] fix: clients shared the nested parts of their
 configuration, the transport settings and the service definitions

---
 src/oidcrp/rp_handler.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 928529a..6585e92 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -198,23 +198,24 @@ class RPHandler(object):
 
         logger.debug(20 * "*" + " init_client " + 20 * "*")
 
+        # Parts of the configuration may be shared by a number of clients. What is modified in one
+        # client must not show up in another.
         try:
-            _cnf = self.pick_config(issuer)
+            _cnf = copy.deepcopy(self.pick_config(issuer))
         except KeyError:
-            # The default is shared by all issuers that are not configured
-            _cnf = copy.copy(self.pick_config(''))
+            _cnf = copy.deepcopy(self.pick_config(''))
             _cnf['issuer'] = issuer
 
         try:
             _services = _cnf['services']
         except KeyError:
-            _services = self.services
+            _services = copy.deepcopy(self.services)
 
         try:
             client = self.client_cls(
                 client_authn_factory=self.client_authn_factory,
                 services=_services, config=_cnf, httplib=self.httplib,
-                httpc_params=self.httpc_params)
+                httpc_params=copy.copy(self.httpc_params))
         except Exception as err:
             logger.error('Failed initiating client: {}'.format(err))
             message = traceback.format_exception(*sys.exc_info())
@@ -223,7 +224,7 @@ class RPHandler(object):
 
         _context = client.client_get("service_context")
         # If non persistent
-        _context.keyjar.load(self.keyjar.dump())
+        _context.keyjar.load(copy.deepcopy(self.keyjar.dump()))
         # If persistent nothings has to be copied
 
         _context.base_url = self.base_url
-- 
2.43.0


From 7108445bb2e394388fdd3cab1a96fe3f9c9f8a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:28 +0000
Subject: [PATCH 43/80] fix: responses stored by two threads at the same time,
 in the same session, overwrote each other

---
 src/oidcrp/state_interface.py | 71 ++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 31 deletions(-)

diff --git a/src/oidcrp/state_interface.py b/src/oidcrp/state_interface.py
index dec02f6..2ef961c 100644
--- a/src/oidcrp/state_interface.py
+++ b/src/oidcrp/state_interface.py
@@ -1,6 +1,7 @@
 """A database interface for storing state information."""
 import copy
 import json
+import threading
 from typing import List
 from typing import Optional
 
@@ -77,6 +78,10 @@ class InMemoryStateDataBase:
             pass
 
 
+# What is read, modified and written back must not have been modified by another thread in between
+_lock = threading.RLock()
+
+
 class StateInterface(ImpExp):
     """A more powerful interface to a state DB."""
 
@@ -90,7 +95,8 @@ class StateInterface(ImpExp):
 
     def dump(self, exclude_attributes: Optional[List[str]] = None) -> dict:
         # A snapshot, not the database that is in use
-        return copy.deepcopy(ImpExp.dump(self, exclude_attributes))
+        with _lock:
+            return copy.deepcopy(ImpExp.dump(self, exclude_attributes))
 
     def load(self, item: dict, init_args: Optional[dict] = None,
              load_args: Optional[dict] = None):
@@ -119,17 +125,18 @@ class StateInterface(ImpExp):
         :param key: The key under which the information should be stored in
             the state database
         """
-        try:
-            _state = self.get_state(key)
-        except KeyError:
-            _state = State()
+        with _lock:
+            try:
+                _state = self.get_state(key)
+            except KeyError:
+                _state = State()
 
-        try:
-            _state[item_type] = item.to_json()
-        except AttributeError:
-            _state[item_type] = item
+            try:
+                _state[item_type] = item.to_json()
+            except AttributeError:
+                _state[item_type] = item
 
-        self._db[key] = _state.to_json()
+            self._db[key] = _state.to_json()
 
     def get_iss(self, key):
         """
@@ -253,16 +260,17 @@ class StateInterface(ImpExp):
         :param state: The state value
         :param xtyp: The type of value x is (e.g. nonce, ...)
         """
-        self._db[KEY_PATTERN[xtyp].format(value)] = state
-        _ref_key = "ref{}ref".format(state)
-        _val = self._db.get(_ref_key)
-        refs = json.loads(_val) if _val else {}
-        # The same session can have more than one value of a type, several logout states
-        # for instance
-        _values = refs.setdefault(xtyp, [])
-        if value not in _values:
-            _values.append(value)
-        self._db[_ref_key] = json.dumps(refs)
+        with _lock:
+            self._db[KEY_PATTERN[xtyp].format(value)] = state
+            _ref_key = "ref{}ref".format(state)
+            _val = self._db.get(_ref_key)
+            refs = json.loads(_val) if _val else {}
+            # The same session can have more than one value of a type, several logout states
+            # for instance
+            _values = refs.setdefault(xtyp, [])
+            if value not in _values:
+                _values.append(value)
+            self._db[_ref_key] = json.dumps(refs)
 
     def get_state_by_x(self, value, xtyp):
         """
@@ -390,14 +398,15 @@ class StateInterface(ImpExp):
 
         :param state: Key to the state
         """
-        del self._db[state]
-        _ref_key = "ref{}ref".format(state)
-        _val = self._db.get(_ref_key)
-        if _val:
-            for xtyp, _values in json.loads(_val).items():
-                for _value in _values:
-                    _key = KEY_PATTERN[xtyp].format(_value)
-                    # By now it may belong to another session
-                    if self._db.get(_key) == state:
-                        del self._db[_key]
-            del self._db[_ref_key]
+        with _lock:
+            del self._db[state]
+            _ref_key = "ref{}ref".format(state)
+            _val = self._db.get(_ref_key)
+            if _val:
+                for xtyp, _values in json.loads(_val).items():
+                    for _value in _values:
+                        _key = KEY_PATTERN[xtyp].format(_value)
+                        # By now it may belong to another session
+                        if self._db.get(_key) == state:
+                            del self._db[_key]
+                del self._db[_ref_key]
-- 
2.43.0


From ab7eacf64ed80df6992c4cead79821a3c3d2b627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 44/80] fix: two threads that were first to use DPoP made a key
 each

---
 src/oidcrp/oauth2/add_on/dpop.py | 52 ++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index d7cebdb..acff368 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -1,3 +1,4 @@
+import threading
 from typing import Optional
 from urllib.parse import urlsplit
 from urllib.parse import urlunsplit
@@ -85,6 +86,9 @@ class DPoPProof(Message):
             return None
 
 
+_lock = threading.Lock()
+
+
 def is_asymmetric(alg: str) -> bool:
     # The key is disclosed in the proof, a secret key must not be.
     return alg[:2] in ("RS", "ES")
@@ -106,29 +110,31 @@ def dpop_header(service_context: ServiceContext,
     """
 
     provider_info = service_context.provider_info
-    # The key is kept as a JWK such that it can be dumped together with the rest of the context
-    dpop_key = service_context.add_on['dpop'].get('key')
-    if dpop_key:
-        dpop_key = key_from_jwk_dict(dpop_key)
-
-    if not dpop_key:
-        algs_supported = provider_info.get("dpop_signing_alg_values_supported")
-        if not algs_supported:  # does not support DPoP
-            return headers
-
-        chosen_alg = ''
-        for alg in service_context.add_on['dpop']["sign_algs"]:
-            if alg in algs_supported and is_asymmetric(alg):
-                chosen_alg = alg
-                break
-
-        if not chosen_alg:
-            return headers
-
-        # Mint a new key
-        dpop_key = key_by_alg(chosen_alg)
-        service_context.add_on['dpop']['key'] = dpop_key.serialize(private=True)
-        service_context.add_on['dpop']['alg'] = chosen_alg
+    # All threads must use the same key
+    with _lock:
+        # The key is kept as a JWK such that it can be dumped together with the rest of the context
+        dpop_key = service_context.add_on['dpop'].get('key')
+        if dpop_key:
+            dpop_key = key_from_jwk_dict(dpop_key)
+
+        if not dpop_key:
+            algs_supported = provider_info.get("dpop_signing_alg_values_supported")
+            if not algs_supported:  # does not support DPoP
+                return headers
+
+            chosen_alg = ''
+            for alg in service_context.add_on['dpop']["sign_algs"]:
+                if alg in algs_supported and is_asymmetric(alg):
+                    chosen_alg = alg
+                    break
+
+            if not chosen_alg:
+                return headers
+
+            # Mint a new key
+            dpop_key = key_by_alg(chosen_alg)
+            service_context.add_on['dpop']['key'] = dpop_key.serialize(private=True)
+            service_context.add_on['dpop']['alg'] = chosen_alg
 
     header_dict = {
         "typ": "dpop+jwt",
-- 
2.43.0


From d712c69a818e69ce1ef3ff713da5650c1981c66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:32 +0000
Subject: [PATCH 45/80] fix: threads that were first at an issuer each set up a
 client, and lookups failed while one was added

---
 src/oidcrp/rp_handler.py | 42 +++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 6585e92..2345205 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -2,6 +2,7 @@ import copy
 from inspect import currentframe
 import logging
 import sys
+import threading
 import traceback
 from typing import Optional
 
@@ -98,6 +99,8 @@ class RPHandler(object):
         self.issuer2rp = {}
         # and which one was set up for which name, as used in the configuration or by the user
         self.name2rp = {}
+        # Only one thread at the time can set up clients
+        self._setup_lock = threading.RLock()
         self.hash2issuer = {}
         self.httplib = http_lib
 
@@ -118,7 +121,8 @@ class RPHandler(object):
         :param state: The state value
         :return: An Issuer ID
         """
-        for _rp in self.issuer2rp.values():
+        # A copy, since another thread may be about to add a client
+        for _rp in list(self.issuer2rp.values()):
             try:
                 _iss = _rp.client_get("service_context").state.get_iss(state)
             except KeyError:
@@ -178,11 +182,11 @@ class RPHandler(object):
 
         # Not if another client has been put in its place
         client = self.name2rp.get(iss_id)
-        if client is not None and any(client is _rp for _rp in self.issuer2rp.values()):
+        if client is not None and any(client is _rp for _rp in list(self.issuer2rp.values())):
             return client
 
         if iss_id not in self.client_configs:
-            for issuer, client in self.issuer2rp.items():
+            for issuer, client in list(self.issuer2rp.items()):
                 if same_issuer(issuer, iss_id):
                     return client
         return None
@@ -388,22 +392,28 @@ class RPHandler(object):
         if client is not None:
             return client
 
-        if temporary_client and iss_id not in self.client_configs:
-            client = temporary_client
-        else:
-            logger.debug("Creating new client: %s", iss_id)
-            client = self.init_client(iss_id)
+        with self._setup_lock:
+            # May have been set up while waiting
+            client = self._known_client(iss_id)
+            if client is not None:
+                return client
+
+            if temporary_client and iss_id not in self.client_configs:
+                client = temporary_client
+            else:
+                logger.debug("Creating new client: %s", iss_id)
+                client = self.init_client(iss_id)
 
-        logger.debug("Get provider info")
-        issuer = self.do_provider_info(client, behaviour_args=behaviour_args)
+            logger.debug("Get provider info")
+            issuer = self.do_provider_info(client, behaviour_args=behaviour_args)
 
-        logger.debug("Do client registration")
-        self.do_client_registration(client, iss_id, behaviour_args=behaviour_args)
+            logger.debug("Do client registration")
+            self.do_client_registration(client, iss_id, behaviour_args=behaviour_args)
 
-        self.issuer2rp[issuer] = client
-        # If the provider uses another name than the one the sessions are bound to
-        self.issuer2rp[client.client_get("service_context").get('issuer')] = client
-        self.name2rp[iss_id] = client
+            self.issuer2rp[issuer] = client
+            # If the provider uses another name than the one the sessions are bound to
+            self.issuer2rp[client.client_get("service_context").get('issuer')] = client
+            self.name2rp[iss_id] = client
         return client
 
     def _get_response_type(self, context, req_args: Optional[dict] = None):
-- 
2.43.0


From 5f1cd8fd998767b52577f75cc3173c96bc7154ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 46/80] fix: a request object could not be encrypted

---
 src/oidcrp/oidc/utils.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/oidcrp/oidc/utils.py b/src/oidcrp/oidc/utils.py
index 9605733..99b2eed 100644
--- a/src/oidcrp/oidc/utils.py
+++ b/src/oidcrp/oidc/utils.py
@@ -41,7 +41,7 @@ def request_object_encryption(msg, service_context, **kwargs):
         raise MissingRequiredAttribute(
             "No request_object_encryption_enc specified")
 
-    _jwe = JWE(msg, alg=encalg, enc=encenc)
+    _jwe = JWE(msg, alg=encalg, enc=encenc, cty="JWT")
     _kty = alg2keytype(encalg)
 
     try:
@@ -49,17 +49,15 @@ def request_object_encryption(msg, service_context, **kwargs):
     except KeyError:
         _kid = ""
 
-    if "target" not in kwargs:
+    # The one that should be able to decrypt the request
+    _target = kwargs.get("target") or kwargs.get("recv")
+    if not _target:
         raise MissingRequiredAttribute("No target specified")
 
     if _kid:
-        _keys = service_context.keyjar.get_encrypt_key(_kty,
-                                                       issuer_id=kwargs["target"],
-                                                       kid=_kid)
-        _jwe["kid"] = _kid
+        _keys = service_context.keyjar.get_encrypt_key(_kty, issuer_id=_target, kid=_kid)
     else:
-        _keys = service_context.keyjar.get_encrypt_key(_kty,
-                                                       issuer_id=kwargs["target"])
+        _keys = service_context.keyjar.get_encrypt_key(_kty, issuer_id=_target)
 
     return _jwe.encrypt(_keys)
 
-- 
2.43.0


From 1b926d4ab00c44ae0442b641ffdedc73c70f7796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:07 +0000
Subject: [PATCH 47/80] fix: a client with a configured secret could not sign
 request objects with it

---
 src/oidcrp/oidc/authorization.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index a0789d9..55734e9 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -2,6 +2,8 @@ import logging
 from typing import Optional
 from typing import Union
 
+from cryptojwt.jws.utils import alg2keytype
+from cryptojwt.key_jar import KeyJar
 from oidcmsg import oauth2
 from oidcmsg import oidc
 from oidcmsg.exception import MissingRequiredAttribute
@@ -167,6 +169,21 @@ class Authorization(authorization.Authorization):
         fid.close()
         return _webname
 
+    def _request_object_keys(self, alg):
+        """
+        The key jar that contains the key to sign a request object with.
+
+        :param alg: The signing algorithm
+        :return: A KeyJar instance
+        """
+        _context = self.client_get("service_context")
+        if alg2keytype(alg) == "oct" and _context.client_secret:
+            # The client secret is what the provider will verify the signature with
+            _keyjar = KeyJar()
+            _keyjar.add_symmetric('', _context.client_secret)
+            return _keyjar
+        return _context.keyjar
+
     def construct_request_parameter(self, req, request_param, audience=None, expires_in=0,
                                     **kwargs):
         """ Construct a request parameter """
@@ -175,7 +192,7 @@ class Authorization(authorization.Authorization):
 
         _context = self.client_get("service_context")
         if "keys" not in kwargs and alg and alg != "none":
-            kwargs["keys"] = _context.keyjar
+            kwargs["keys"] = self._request_object_keys(alg)
 
         if alg == "none":
             kwargs["keys"] = []
-- 
2.43.0


From eac2c41458e4e24c4e6a6e05ce75add85ab04468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 48/80] fix: pushed authorization requests were refused, or
 their answer ignored, by providers following RFC 9126

---
 .../oauth2/add_on/pushed_authorization.py     | 41 +++++++++++++++----
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/oidcrp/oauth2/add_on/pushed_authorization.py b/src/oidcrp/oauth2/add_on/pushed_authorization.py
index 4fd1058..9dca3db 100644
--- a/src/oidcrp/oauth2/add_on/pushed_authorization.py
+++ b/src/oidcrp/oauth2/add_on/pushed_authorization.py
@@ -1,13 +1,24 @@
 import logging
 
 from cryptojwt import JWT
+from cryptojwt.jws.utils import alg2keytype
+from cryptojwt.key_jar import KeyJar
 from oidcmsg.message import Message
 from oidcmsg.oauth2 import JWTSecuredAuthorizationRequest
 import requests
 
+from oidcrp.exception import ResponseError
+from oidcrp.util import URL_ENCODED
+
 logger = logging.getLogger(__name__)
 
 
+def _required(request_args):
+    """The required parameters, the way they are represented in a request."""
+    _args = request_args.to_dict()
+    return {param: _args[param] for param in request_args.required_parameters() if param in _args}
+
+
 def push_authorization(request_args, service, **kwargs):
     """
     :param request_args: All the request arguments as a AuthorizationRequest instance
@@ -22,27 +33,39 @@ def push_authorization(request_args, service, **kwargs):
     if method_args["body_format"] == "urlencoded":
         _body = request_args.to_urlencoded()
     else:
-        _jwt = JWT(key_jar=_context.keyjar, iss=_context.base_url)
-        _jws = _jwt.pack(request_args.to_dict())
+        _alg = method_args["signing_algorithm"]
+        _keyjar = _context.keyjar
+        if alg2keytype(_alg) == "oct" and _context.client_secret:
+            # The client secret is what the provider will verify the signature with
+            _keyjar = KeyJar()
+            _keyjar.add_symmetric('', _context.client_secret)
+
+        _jwt = JWT(key_jar=_keyjar, iss=_context.client_id, sign_alg=_alg)
+        _jws = _jwt.pack(request_args.to_dict(),
+                         recv=_context.provider_info.get("issuer", _context.issuer))
 
         _msg = Message(request=_jws)
         if method_args["merge_rule"] == "lax":
-            for param in request_args.required_parameters():
-                _msg[param] = request_args.get(param)
+            _msg.update(_required(request_args))
 
         _body = _msg.to_urlencoded()
 
     # Send it to the Pushed Authorization Request Endpoint
     resp = method_args["http_client"].get(
-        _context.provider_info["pushed_authorization_request_endpoint"], data=_body
+        _context.provider_info["pushed_authorization_request_endpoint"], data=_body,
+        headers={"Content-Type": URL_ENCODED}, allow_redirects=False
     )
 
-    if resp.status_code == 200:
+    if resp.status_code in (200, 201):
         _resp = Message().from_json(resp.text)
-        _req = JWTSecuredAuthorizationRequest(request_uri=_resp["request_uri"])
+        if not _resp.get("request_uri"):
+            raise ResponseError("No request_uri in the pushed authorization response")
         if method_args["merge_rule"] == "lax":
-            for param in request_args.required_parameters():
-                _req[param] = request_args.get(param)
+            _req = JWTSecuredAuthorizationRequest(request_uri=_resp["request_uri"])
+            _req.update(_required(request_args))
+        else:
+            # The client ID must always be there
+            _req = Message(request_uri=_resp["request_uri"], client_id=request_args["client_id"])
         request_args = _req
 
     return request_args
-- 
2.43.0


From 3bba32043d27df1fbb0694cb28146236750b2a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 49/80] fix: a request object could not be stored under a
 registered request URI

---
 src/oidcrp/oidc/authorization.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index 55734e9..7ecfee6 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -1,4 +1,5 @@
 import logging
+import os
 from typing import Optional
 from typing import Union
 
@@ -161,8 +162,12 @@ class Authorization(authorization.Authorization):
         try:
             _webname = _context.registration_response['request_uris'][0]
             filename = _context.filename_from_webname(_webname)
-        except KeyError:
+        except (KeyError, IndexError):
             filename, _webname = construct_request_uri(**kwargs)
+        else:
+            _dir = os.path.dirname(filename)
+            if _dir:
+                os.makedirs(_dir, exist_ok=True)
 
         fid = open(filename, mode="w")
         fid.write(req)
-- 
2.43.0


From 0f26e0a20618506bb17f81be95e250c42c68c060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 50/80] fix: a provider could have request objects stored
 outside the directory of the application

---
 src/oidcrp/service_context.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index 216bcde..47fe231 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -259,7 +259,11 @@ class ServiceContext(OidcContext):
 
         _name = webname[len(self.base_url):]
         if _name.startswith('/'):
-            return _name[1:]
+            _name = _name[1:]
+
+        # The URL may come from someone else
+        if os.path.isabs(_name) or '..' in _name.split('/'):
+            raise ValueError("Not a file in or below the directory the RP is run from")
 
         return _name
 
-- 
2.43.0


From 3eeee888de193711be573071173a159a45200fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 51/80] fix: generating request URIs replaced the redirect URIs

---
 src/oidcrp/service_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index 47fe231..03b2fd6 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -287,7 +287,7 @@ class ServiceContext(OidcContext):
         else:
             redirs = ['{}{}/{}'.format(self.base_url, path, _hash.hexdigest())]
 
-        self.set('redirect_uris', redirs)
+        self.set('request_uris', redirs)
         return redirs
 
     def import_keys(self, keyspec):
-- 
2.43.0


From 5d1a67163fa44e8879bb0e3932569b24e97551ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:06 +0000
Subject: [PATCH 52/80] fix: a request argument that is configured to be 0 or
 False is not left out

---
 src/oidcrp/service.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index 0d4db60..3c1591e 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -112,19 +112,13 @@ class Service(ImpExp):
             if prop in ar_args:
                 continue
 
-            val = _context.get(prop)
-            if not val:
-                if "request_args" in self.conf:
-                    val = self.conf['request_args'].get(prop)
-                if not val:
-                    val = _context.register_args.get(prop)
-                    if not val:
-                        val = self.default_request_args.get(prop)
-                        if not val:
-                            val = _context.behaviour.get(prop)
-
-            if val:
-                ar_args[prop] = val
+            for source in [_context, self.conf.get('request_args', {}), _context.register_args,
+                           self.default_request_args, _context.behaviour]:
+                val = source.get(prop)
+                # 0 and False are values
+                if val not in (None, '', [], {}):
+                    ar_args[prop] = val
+                    break
 
         return ar_args
 
-- 
2.43.0


From 5d618e7104474afc8d559271785607ab6beccd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:40 +0000
Subject: [PATCH 53/80] fix: the documented client_cert and client_key can be
 used

---
 src/oidcrp/http.py |  3 ++-
 src/oidcrp/util.py | 15 +++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/http.py b/src/oidcrp/http.py
index ef77c49..bc31895 100644
--- a/src/oidcrp/http.py
+++ b/src/oidcrp/http.py
@@ -7,6 +7,7 @@ import logging
 import requests
 
 from oidcrp.exception import NonFatalException
+from oidcrp.util import request_args
 from oidcrp.util import sanitize
 from oidcrp.util import set_cookie
 
@@ -25,7 +26,7 @@ class HTTPLib(object):
 
         self.request_args = {"allow_redirects": False}
         if httpc_params:
-            self.request_args.update(httpc_params)
+            self.request_args.update(request_args(httpc_params))
 
         self.cookiejar = FileCookieJar()
 
diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index 419470d..8e046c7 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -523,6 +523,21 @@ def get_http_params(config):
     return params
 
 
+def request_args(httpc_params):
+    """
+    The arguments for the HTTP library that a set of configured HTTP parameters stands for.
+
+    :param httpc_params: dictionary with HTTP parameters. Apart from what the HTTP library
+        understands this can be 'verify_ssl', 'client_cert' and 'client_key'.
+    :return: dictionary
+    """
+    _special = ['verify_ssl', 'client_cert', 'client_key']
+    _args = {key: val for key, val in httpc_params.items() if key not in _special}
+    if len(_args) != len(httpc_params):
+        _args.update(get_http_params(httpc_params))
+    return _args
+
+
 def add_path(url, path):
     if url.endswith('/'):
         if path.startswith('/'):
-- 
2.43.0


From 343632769f166656dad364e067f8af2260617271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:03 +0000
Subject: [PATCH 54/80] fix: keys are fetched with the configured HTTP
 parameters

---
 src/oidcrp/entity.py          |  2 +-
 src/oidcrp/rp_handler.py      |  8 ++++++--
 src/oidcrp/service_context.py |  7 ++++++-
 src/oidcrp/util.py            | 16 ++++++++++++++++
 4 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/entity.py b/src/oidcrp/entity.py
index 69dffd6..072c3e5 100644
--- a/src/oidcrp/entity.py
+++ b/src/oidcrp/entity.py
@@ -40,7 +40,7 @@ class Entity():
             self.httpc_params = {"verify": True}
 
         self._service_context = ServiceContext(keyjar=keyjar, config=config,
-                                               jwks_uri=jwks_uri, httpc_params=self.httpc_params)
+                                               jwks_uri=jwks_uri, httpc_params=httpc_params or {})
 
         _cam = client_authn_factory or factory
 
diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 2345205..aa4af71 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -36,6 +36,7 @@ from .oauth2.utils import pick_redirect_uri
 from .util import add_path
 from .util import load_registration_response
 from .util import rndstr
+from .util import set_key_fetching
 
 logger = logging.getLogger(__name__)
 
@@ -109,8 +110,10 @@ class RPHandler(object):
         else:
             self.httpc_params = httpc_params
 
-        if not self.keyjar.httpc_params:
-            self.keyjar.httpc_params = self.httpc_params
+        if httpc_params:
+            set_key_fetching(self.keyjar, httpc_params)
+        elif 'verify' not in (self.keyjar.httpc_params or {}):
+            set_key_fetching(self.keyjar, self.httpc_params)
 
     def state2issuer(self, state):
         """
@@ -230,6 +233,7 @@ class RPHandler(object):
         # If non persistent
         _context.keyjar.load(copy.deepcopy(self.keyjar.dump()))
         # If persistent nothings has to be copied
+        set_key_fetching(_context.keyjar, self.keyjar.httpc_params)
 
         _context.base_url = self.base_url
         _context.jwks_uri = self.jwks_uri
diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index 03b2fd6..ae6b05c 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -17,6 +17,7 @@ from oidcmsg.oidc import RegistrationRequest
 from oidcmsg.util import rndstr
 
 from oidcrp.state_interface import StateInterface
+from oidcrp.util import set_key_fetching
 
 CLI_REG_MAP = {
     "userinfo": {
@@ -194,6 +195,9 @@ class ServiceContext(OidcContext):
         for key, val in kwargs.items():
             setattr(self, key, val)
 
+        if self.httpc_params:
+            set_key_fetching(self.keyjar, self.httpc_params)
+
         for attr in ['base_url', 'requests_dir', 'allow', 'client_preferences', 'verify_args']:
             try:
                 setattr(self, attr, config[attr])
@@ -312,7 +316,8 @@ class ServiceContext(OidcContext):
                             self.keyjar.add_kb('', _bundle)
             elif where == 'url':
                 for iss, url in spec.items():
-                    _bundle = KeyBundle(source=url)
+                    _bundle = KeyBundle(source=url, httpc=self.keyjar.httpc,
+                                        httpc_params=copy.deepcopy(self.keyjar.httpc_params))
                     self.keyjar.add_kb(iss, _bundle)
 
     def get_sign_alg(self, typ):
diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index 8e046c7..7ba52f6 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -1,4 +1,5 @@
 """Utilities"""
+import copy
 from http.cookiejar import Cookie
 from http.cookiejar import http2time
 import importlib
@@ -538,6 +539,21 @@ def request_args(httpc_params):
     return _args
 
 
+def set_key_fetching(keyjar, httpc_params):
+    """
+    Keys are fetched the way everything else is. With one exception: a key bundle adds what
+    is specific to itself to the headers it is given, so they can not be shared.
+
+    :param keyjar: A KeyJar instance
+    :param httpc_params: dictionary with HTTP parameters
+    """
+    _args = dict(keyjar.httpc_params or {})
+    _args.update({k: v for k, v in request_args(httpc_params).items() if k != 'headers'})
+    keyjar.httpc_params = copy.deepcopy(_args)
+    for issuer in keyjar.owners():
+        keyjar[issuer].httpc_params = copy.deepcopy(_args)
+
+
 def add_path(url, path):
     if url.endswith('/'):
         if path.startswith('/'):
-- 
2.43.0


From 64e81e07716865e01e0395124bdf106ba43fae4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:03 +0000
Subject: [PATCH 55/80] fix: headers of a request do not replace the ones
 configured for all requests

---
 src/oidcrp/http.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcrp/http.py b/src/oidcrp/http.py
index bc31895..ac2056b 100644
--- a/src/oidcrp/http.py
+++ b/src/oidcrp/http.py
@@ -86,6 +86,10 @@ class HTTPLib(object):
         _kwargs = copy.copy(self.request_args)
         if kwargs:
             _kwargs.update(kwargs)
+            if self.request_args.get('headers'):
+                # what is configured for all requests and what is specific to this one
+                _kwargs['headers'] = {**self.request_args['headers'],
+                                      **(kwargs.get('headers') or {})}
 
         # If I have cookies add them all to the request
         self.add_cookies(kwargs)
-- 
2.43.0


From 8cef0cf23f17f703d6d91a246f3e6ab2dfd9fca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:03 +0000
Subject: [PATCH 56/80] fix: the request arguments returned by the callback
 function are used

---
 src/oidcrp/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/http.py b/src/oidcrp/http.py
index ac2056b..38e67cf 100644
--- a/src/oidcrp/http.py
+++ b/src/oidcrp/http.py
@@ -96,7 +96,7 @@ class HTTPLib(object):
 
         # If I want to modify the request arguments based on URL, method
         # and current arguments I can use this call back function.
-        self.run_req_callback(url, method, kwargs)
+        _kwargs = self.run_req_callback(url, method, _kwargs)
 
         try:
             # Do the request
-- 
2.43.0


From d629d22378da0239f4dc34363fc1225a74022bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:03 +0000
Subject: [PATCH 57/80] fix: a response is not lost because of a cookie that
 can not be understood

---
 src/oidcrp/http.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/http.py b/src/oidcrp/http.py
index 38e67cf..82e9c34 100644
--- a/src/oidcrp/http.py
+++ b/src/oidcrp/http.py
@@ -6,7 +6,6 @@ import logging
 
 import requests
 
-from oidcrp.exception import NonFatalException
 from oidcrp.util import request_args
 from oidcrp.util import sanitize
 from oidcrp.util import set_cookie
@@ -66,9 +65,9 @@ class HTTPLib(object):
             try:
                 # add received cookies to the cookie jar
                 set_cookie(self.cookiejar, SimpleCookie(_cookie))
-            except CookieError as err:
+            except (CookieError, ValueError) as err:
+                # A cookie that can not be understood says nothing about the rest of the response
                 logger.error(err)
-                raise NonFatalException(response, "{}".format(err))
         except (AttributeError, KeyError) as err:
             pass
 
-- 
2.43.0


From ec120d838e8a2388bf406b8f350b5d6853f06c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:19 +0000
Subject: [PATCH 58/80] fix: pushed authorization requests are sent with the
 configured HTTP parameters

---
 src/oidcrp/oauth2/add_on/pushed_authorization.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/oidcrp/oauth2/add_on/pushed_authorization.py b/src/oidcrp/oauth2/add_on/pushed_authorization.py
index 9dca3db..e9bf487 100644
--- a/src/oidcrp/oauth2/add_on/pushed_authorization.py
+++ b/src/oidcrp/oauth2/add_on/pushed_authorization.py
@@ -5,7 +5,6 @@ from cryptojwt.jws.utils import alg2keytype
 from cryptojwt.key_jar import KeyJar
 from oidcmsg.message import Message
 from oidcmsg.oauth2 import JWTSecuredAuthorizationRequest
-import requests
 
 from oidcrp.exception import ResponseError
 from oidcrp.util import URL_ENCODED
@@ -51,7 +50,9 @@ def push_authorization(request_args, service, **kwargs):
         _body = _msg.to_urlencoded()
 
     # Send it to the Pushed Authorization Request Endpoint
-    resp = method_args["http_client"].get(
+    _http_client = method_args["http_client"]
+    _send = _http_client.get if _http_client else service.client_get("entity").http
+    resp = _send(
         _context.provider_info["pushed_authorization_request_endpoint"], data=_body,
         headers={"Content-Type": URL_ENCODED}, allow_redirects=False
     )
@@ -77,15 +78,12 @@ def add_support(services, body_format="jws", signing_algorithm="RS256",
     Add the necessary pieces to make Demonstration of proof of possession (DPOP).
 
     :param merge_rule:
-    :param http_client:
+    :param http_client: If none is given the one that is used for all other requests
     :param signing_algorithm:
     :param services: A dictionary with all the services the client has access to.
     :param body_format: jws or urlencoded
     """
 
-    if http_client is None:
-        http_client = requests
-
     _service = services["authorization"]
     _service.client_get("service_context").add_on['pushed_authorization'] = {
         "body_format": body_format,
-- 
2.43.0


From 476370c482fe1829bcd251700d246c10457e67b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:59 +0000
Subject: [PATCH 59/80] fix: client credentials tokens obtained without a
 session can be refreshed

---
 src/oidcrp/oauth2/client_credentials/cc_access_token.py       | 3 ++-
 .../oauth2/client_credentials/cc_refresh_access_token.py      | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/oauth2/client_credentials/cc_access_token.py b/src/oidcrp/oauth2/client_credentials/cc_access_token.py
index 0bec1bb..4e72c07 100644
--- a/src/oidcrp/oauth2/client_credentials/cc_access_token.py
+++ b/src/oidcrp/oauth2/client_credentials/cc_access_token.py
@@ -24,4 +24,5 @@ class CCAccessToken(Service):
     def update_service_context(self, resp, key='cc', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
-        self.client_get('service_context').state.store_item(resp, 'token_response', key)
+        # The default key is used when a request isn't part of a session
+        self.client_get('service_context').state.store_item(resp, 'token_response', key or 'cc')
diff --git a/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py b/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
index 13468a4..6679339 100644
--- a/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
+++ b/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
@@ -22,7 +22,7 @@ class CCRefreshAccessToken(Service):
         self.post_construct.append(self.cc_post_construct)
 
     def cc_pre_construct(self, request_args=None, **kwargs):
-        _state_id = kwargs.get("state", "cc")
+        _state_id = kwargs.get("state") or "cc"
         parameters = ['refresh_token']
         _state_interface = self.client_get("service_context").state
         _args = _state_interface.extend_request_args({}, oauth2.AccessTokenResponse,
@@ -52,4 +52,4 @@ class CCRefreshAccessToken(Service):
     def update_service_context(self, resp, key='cc', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
-        self.client_get("service_context").state.store_item(resp, 'token_response', key)
+        self.client_get("service_context").state.store_item(resp, 'token_response', key or 'cc')
-- 
2.43.0


From 36658b2ff0ded0fea0ab07f2168e7981fbb42fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:59 +0000
Subject: [PATCH 60/80] fix: a client credentials refresh that renews only the
 access token keeps the refresh token

---
 .../oauth2/client_credentials/cc_refresh_access_token.py  | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py b/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
index 6679339..c418b6d 100644
--- a/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
+++ b/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
@@ -1,4 +1,5 @@
 from oidcmsg import oauth2
+from oidcmsg.message import Message
 from oidcmsg.oauth2 import ResponseMessage
 from oidcmsg.time_util import time_sans_frac
 
@@ -52,4 +53,9 @@ class CCRefreshAccessToken(Service):
     def update_service_context(self, resp, key='cc', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
-        self.client_get("service_context").state.store_item(resp, 'token_response', key or 'cc')
+        # If there is no new refresh token the one used can be used again
+        _state_interface = self.client_get("service_context").state
+        _item = _state_interface.extend_request_args({}, Message, 'token_response', key or 'cc',
+                                                     ['refresh_token'])
+        _item.update(resp)
+        _state_interface.store_item(Message(**_item), 'token_response', key or 'cc')
-- 
2.43.0


From 29fdebdf18490b1f46674da28da1ffb0bd4f64b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:54 +0000
Subject: [PATCH 61/80] fix: a client can authenticate with a JWT when it asks
 for a client credentials token

---
 src/oidcrp/client_auth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index e27ad50..f088096 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -546,7 +546,7 @@ class JWSAuthnMethod(ClientAuthnMethod):
             pass
 
         # If client_id is not required to be present, remove it.
-        if not request.c_param["client_id"][VREQUIRED]:
+        if not request.c_param.get("client_id", SINGLE_OPTIONAL_STRING)[VREQUIRED]:
             try:
                 del request["client_id"]
             except KeyError:
-- 
2.43.0


From 34137eddf8cf5797ef0d2e377969c4386cc76aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:37 +0000
Subject: [PATCH 62/80] fix: a response is found in the fragment of a URL also
 if the redirect URI has a query part

---
 src/oidcrp/service.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index 3c1591e..b38d330 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -1,8 +1,10 @@
 """ The basic Service class upon which all the specific services are built. """
 import logging
+import re
 from typing import Callable
 from typing import Optional
 from typing import Union
+from urllib.parse import parse_qs
 from urllib.parse import urlparse
 
 from cryptojwt.jwt import JWT
@@ -34,6 +36,17 @@ SPECIAL_ARGS = ['authn_endpoint', 'algs']
 REQUEST_INFO = 'Doing request with: URL:{}, method:{}, data:{}, https_args:{}'
 
 
+def is_response(info):
+    """
+    Whether a query or fragment part contains an authorization response
+
+    :param info: urlencoded string
+    :return: bool
+    """
+    return not {'state', 'code', 'id_token', 'access_token', 'error', 'response'}.isdisjoint(
+        parse_qs(info, keep_blank_values=True))
+
+
 class Service(ImpExp):
     """The basic Service class."""
     msg_type = Message
@@ -417,14 +430,14 @@ class Service(ImpExp):
         :param info: A URL possibly containing a query or a fragment part
         :return: the query/fragment part
         """
-        # If info is a whole URL pick out the query or fragment part
-        if '?' in info or '#' in info:
+        # If info is a whole URL pick out the query or fragment part. '?' and '#' may also be
+        # part of a value.
+        _path = re.split('[?#]', info, maxsplit=1)[0]
+        if _path != info and ('=' not in _path or re.match('[A-Za-z][A-Za-z0-9+.-]*:/|/', _path)):
             parts = urlparse(info)
-            # either query of fragment
-            if parts.query:
-                info = parts.query
-            else:
-                info = parts.fragment
+            # either query or fragment. If there are both one of them isn't part of the response,
+            # a redirect URI can have a query part of its own.
+            info = parts.fragment if is_response(parts.fragment) else parts.query or parts.fragment
         return info
 
     def post_parse_response(self, response, **kwargs):
-- 
2.43.0


From 962d8b879df452c5769f58473757dc40e7cd954e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:34 +0000
Subject: [PATCH 63/80] fix: media types are case-insensitive

---
 src/oidcrp/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index 7ba52f6..fad1f79 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -177,12 +177,14 @@ def importer(name):
 
 
 def match_to_(val, vlist):
+    # media types are case-insensitive
+    val = val.lower()
     if isinstance(vlist, str):
-        if vlist.startswith(val):
+        if vlist.lower().startswith(val):
             return True
     else:
         for v in vlist:
-            if v.startswith(val):
+            if v.lower().startswith(val):
                 return True
     return False
 
-- 
2.43.0


From 3e5e29a87494631e86bc31512ca43bca431bdabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:28 +0000
Subject: [PATCH 64/80] fix: a logout at a provider that has no
 end_session_endpoint leaves nothing in the session

---
 src/oidcrp/rp_handler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index aa4af71..9144d33 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -982,6 +982,11 @@ class RPHandler(object):
         if srv is None:
             raise OidcServiceError("Does not know how to logout")
 
+        try:
+            srv.get_endpoint()
+        except KeyError:
+            raise OidcServiceError("The provider has no end_session_endpoint")
+
         if post_logout_redirect_uri:
             request_args = {
                 "post_logout_redirect_uri": post_logout_redirect_uri
-- 
2.43.0


From e9116fffab47bb5f1d950f049c41ef8584685e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:59 +0000
Subject: [PATCH 65/80] fix: {domain} and {port} are replaced in all the URIs
 of a configuration

---
 src/oidcrp/configure.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/configure.py b/src/oidcrp/configure.py
index 800d24f..e22125e 100755
--- a/src/oidcrp/configure.py
+++ b/src/oidcrp/configure.py
@@ -19,11 +19,13 @@ except ImportError:
     from cryptojwt import rndstr as rnd_token
 
 URIS = [
-    "redirect_uris", 'post_logout_redirect_uris', 'frontchannel_logout_uri',
-    'backchannel_logout_uri', 'issuer', 'base_url']
+    "redirect_uris", 'post_logout_redirect_uri', 'post_logout_redirect_uris',
+    'frontchannel_logout_uri', 'backchannel_logout_uri', 'issuer', 'base_url']
 
 
 class RPConfiguration(Base):
+    uris = URIS
+
     def __init__(self,
                  conf: Dict,
                  base_path: Optional[str] = '',
@@ -60,6 +62,7 @@ class RPConfiguration(Base):
 
 class Configuration(Base):
     """RP Configuration"""
+    uris = URIS
 
     def __init__(self,
                  conf: Dict,
-- 
2.43.0


From 89de502155171fc423507bfedd5a520aa8112f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:27 +0000
Subject: [PATCH 66/80] fix: the domain and port given when a configuration is
 loaded are used

---
 src/oidcrp/configure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/configure.py b/src/oidcrp/configure.py
index e22125e..f3008c6 100755
--- a/src/oidcrp/configure.py
+++ b/src/oidcrp/configure.py
@@ -74,7 +74,7 @@ class Configuration(Base):
                  dir_attributes: Optional[List[str]] = None,
                  ):
         Base.__init__(self, conf, base_path=base_path, file_attributes=file_attributes,
-                      dir_attributes=dir_attributes)
+                      dir_attributes=dir_attributes, domain=domain, port=port)
 
         log_conf = conf.get('logging')
         if log_conf:
@@ -86,7 +86,7 @@ class Configuration(Base):
 
         if entity_conf:
             self.extend(entity_conf=entity_conf, conf=conf, base_path=base_path,
-                        file_attributes=file_attributes, domain=domain, port=port,
+                        file_attributes=file_attributes, domain=self.domain, port=self.port,
                         dir_attributes=dir_attributes)
 
 
-- 
2.43.0


From 32be45c63f0388d8b2720324b68bae2eea93f82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:42 +0000
Subject: [PATCH 67/80] fix: a relative base path is added only once to the
 paths of a configuration

---
 src/oidcrp/configure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/configure.py b/src/oidcrp/configure.py
index f3008c6..c8d1bf2 100755
--- a/src/oidcrp/configure.py
+++ b/src/oidcrp/configure.py
@@ -85,7 +85,8 @@ class Configuration(Base):
         self.web_conf = lower_or_upper(conf, "webserver")
 
         if entity_conf:
-            self.extend(entity_conf=entity_conf, conf=conf, base_path=base_path,
+            # The base path has already been added to the paths in conf
+            self.extend(entity_conf=entity_conf, conf=conf, base_path='',
                         file_attributes=file_attributes, domain=self.domain, port=self.port,
                         dir_attributes=dir_attributes)
 
-- 
2.43.0


From fd202be8fecb2d5d3ff1ef187381383cf4b96601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:49 +0000
Subject: [PATCH 68/80] fix: the keys of a handler that has no jwks_path are
 registered

---
 src/oidcrp/rp_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 9144d33..169798c 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -237,6 +237,8 @@ class RPHandler(object):
 
         _context.base_url = self.base_url
         _context.jwks_uri = self.jwks_uri
+        if not self.jwks_uri and self.jwks:
+            _context.jwks = copy.deepcopy(self.jwks)
         if not _cnf.get('hash_seed'):
             _context.hash_seed = self.hash_seed
         return client
-- 
2.43.0


From e20e28ebf5d3aa58e6e4c126cb1de3aad703ef6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:38 +0000
Subject: [PATCH 69/80] fix: a setting whose name is in upper case is used also
 if there is a default

---
 src/oidcrp/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index fad1f79..34395b5 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -411,7 +411,7 @@ def has_method(o, name):
 
 
 def lower_or_upper(config, param, default=None):
-    res = config.get(param.lower(), default)
+    res = config.get(param.lower())
     if not res:
         res = config.get(param.upper(), default)
     return res
-- 
2.43.0


From b6c732f06e9588e6e3e1d0c3abdfc7b1cf9a2759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:46 +0000
Subject: [PATCH 70/80] fix: the domain and port of a relying party
 configuration are used

---
 src/oidcrp/configure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/configure.py b/src/oidcrp/configure.py
index c8d1bf2..6e11eb2 100755
--- a/src/oidcrp/configure.py
+++ b/src/oidcrp/configure.py
@@ -30,8 +30,8 @@ class RPConfiguration(Base):
                  conf: Dict,
                  base_path: Optional[str] = '',
                  entity_conf: Optional[List[dict]] = None,
-                 domain: Optional[str] = "127.0.0.1",
-                 port: Optional[int] = 80,
+                 domain: Optional[str] = "",
+                 port: Optional[int] = 0,
                  file_attributes: Optional[List[str]] = None,
                  dir_attributes: Optional[List[str]] = None,
                  ):
-- 
2.43.0


From 018aa1d1b07f5ce3ad055a4b12535a088ed85688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:32 +0000
Subject: [PATCH 71/80] fix: a token response doesn't decide on what a refresh
 request contains

---
 src/oidcrp/oauth2/refresh_access_token.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/refresh_access_token.py b/src/oidcrp/oauth2/refresh_access_token.py
index 7b66956..b4889ac 100644
--- a/src/oidcrp/oauth2/refresh_access_token.py
+++ b/src/oidcrp/oauth2/refresh_access_token.py
@@ -46,7 +46,8 @@ class RefreshAccessToken(Service):
     def oauth_pre_construct(self, request_args=None, **kwargs):
         """Preconstructor of request arguments"""
         _state = get_state_parameter(request_args, kwargs)
-        parameters = list(self.msg_type.c_param.keys())
+        # The rest of a request isn't something a response should decide on
+        parameters = ['refresh_token', 'scope']
 
         _si = self.client_get("service_context").state
         _args = _si.extend_request_args({}, oauth2.AccessTokenResponse,
-- 
2.43.0


From 244858c158a57fff16690d15c86743b539a50a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:35 +0000
Subject: [PATCH 72/80] fix: members of a response aren't taken for what the
 library itself has verified

---
 src/oidcrp/oauth2/access_token.py               |  4 ++++
 src/oidcrp/oauth2/authorization.py              |  4 ++++
 .../client_credentials/cc_access_token.py       |  4 ++++
 .../cc_refresh_access_token.py                  |  4 ++++
 src/oidcrp/oauth2/refresh_access_token.py       |  4 ++++
 src/oidcrp/oauth2/utils.py                      | 17 +++++++++++++++++
 6 files changed, 37 insertions(+)

diff --git a/src/oidcrp/oauth2/access_token.py b/src/oidcrp/oauth2/access_token.py
index 8e52538..4e3cd25 100644
--- a/src/oidcrp/oauth2/access_token.py
+++ b/src/oidcrp/oauth2/access_token.py
@@ -6,6 +6,7 @@ from oidcmsg.oauth2 import ResponseMessage
 from oidcmsg.time_util import time_sans_frac
 
 from oidcrp.oauth2.utils import get_state_parameter
+from oidcrp.oauth2.utils import remove_internal_claims
 from oidcrp.service import Service
 
 LOGGER = logging.getLogger(__name__)
@@ -29,6 +30,9 @@ class AccessToken(Service):
                          client_authn_factory=client_authn_factory, conf=conf)
         self.pre_construct.append(self.oauth_pre_construct)
 
+    def _do_response(self, info, sformat, **kwargs):
+        return remove_internal_claims(Service._do_response(self, info, sformat, **kwargs))
+
     def update_service_context(self, resp, key='', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
diff --git a/src/oidcrp/oauth2/authorization.py b/src/oidcrp/oauth2/authorization.py
index d82c8e1..2e03667 100644
--- a/src/oidcrp/oauth2/authorization.py
+++ b/src/oidcrp/oauth2/authorization.py
@@ -8,6 +8,7 @@ from oidcmsg.time_util import time_sans_frac
 
 from oidcrp.oauth2.utils import get_state_parameter
 from oidcrp.oauth2.utils import pre_construct_pick_redirect_uri
+from oidcrp.oauth2.utils import remove_internal_claims
 from oidcrp.oauth2.utils import set_state_parameter
 from oidcrp.service import Service
 
@@ -35,6 +36,9 @@ class Authorization(Service):
         self.pre_construct.extend([pre_construct_pick_redirect_uri, set_state_parameter])
         self.post_construct.append(self.store_auth_request)
 
+    def _do_response(self, info, sformat, **kwargs):
+        return remove_internal_claims(Service._do_response(self, info, sformat, **kwargs))
+
     def update_service_context(self, resp, key='', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
diff --git a/src/oidcrp/oauth2/client_credentials/cc_access_token.py b/src/oidcrp/oauth2/client_credentials/cc_access_token.py
index 4e72c07..a304c15 100644
--- a/src/oidcrp/oauth2/client_credentials/cc_access_token.py
+++ b/src/oidcrp/oauth2/client_credentials/cc_access_token.py
@@ -2,6 +2,7 @@ from oidcmsg import oauth2
 from oidcmsg.oauth2 import ResponseMessage
 from oidcmsg.time_util import time_sans_frac
 
+from oidcrp.oauth2.utils import remove_internal_claims
 from oidcrp.service import Service
 
 
@@ -21,6 +22,9 @@ class CCAccessToken(Service):
         Service.__init__(self, client_get,
                          client_authn_factory=client_authn_factory, conf=conf)
 
+    def _do_response(self, info, sformat, **kwargs):
+        return remove_internal_claims(Service._do_response(self, info, sformat, **kwargs))
+
     def update_service_context(self, resp, key='cc', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
diff --git a/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py b/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
index c418b6d..2414efe 100644
--- a/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
+++ b/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
@@ -3,6 +3,7 @@ from oidcmsg.message import Message
 from oidcmsg.oauth2 import ResponseMessage
 from oidcmsg.time_util import time_sans_frac
 
+from oidcrp.oauth2.utils import remove_internal_claims
 from oidcrp.service import Service
 
 
@@ -50,6 +51,9 @@ class CCRefreshAccessToken(Service):
 
         return request_args
 
+    def _do_response(self, info, sformat, **kwargs):
+        return remove_internal_claims(Service._do_response(self, info, sformat, **kwargs))
+
     def update_service_context(self, resp, key='cc', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
diff --git a/src/oidcrp/oauth2/refresh_access_token.py b/src/oidcrp/oauth2/refresh_access_token.py
index b4889ac..659db63 100644
--- a/src/oidcrp/oauth2/refresh_access_token.py
+++ b/src/oidcrp/oauth2/refresh_access_token.py
@@ -8,6 +8,7 @@ from oidcmsg.oidc import verified_claim_name
 from oidcmsg.time_util import time_sans_frac
 
 from oidcrp.oauth2.utils import get_state_parameter
+from oidcrp.oauth2.utils import remove_internal_claims
 from oidcrp.service import Service
 
 LOGGER = logging.getLogger(__name__)
@@ -29,6 +30,9 @@ class RefreshAccessToken(Service):
                          client_authn_factory=client_authn_factory, conf=conf)
         self.pre_construct.append(self.oauth_pre_construct)
 
+    def _do_response(self, info, sformat, **kwargs):
+        return remove_internal_claims(Service._do_response(self, info, sformat, **kwargs))
+
     def update_service_context(self, resp, key='', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
diff --git a/src/oidcrp/oauth2/utils.py b/src/oidcrp/oauth2/utils.py
index d1c4038..e56d818 100644
--- a/src/oidcrp/oauth2/utils.py
+++ b/src/oidcrp/oauth2/utils.py
@@ -5,12 +5,29 @@ from typing import Union
 from oidcmsg.exception import MissingParameter
 from oidcmsg.exception import MissingRequiredAttribute
 from oidcmsg.message import Message
+from oidcmsg.oidc import verified_claim_name
 
 from oidcrp.service import Service
 
 logger = logging.getLogger(__name__)
 
 
+# What is added to a response once it has been verified and received
+INTERNAL_CLAIMS = ['__expires_at', verified_claim_name('id_token')]
+
+
+def remove_internal_claims(response: Message) -> Message:
+    """
+    Members with the names used internally are never something the other party can set.
+
+    :param response: A response as it was received
+    :return: The response without such members
+    """
+    for claim in INTERNAL_CLAIMS:
+        response.pop(claim, None)
+    return response
+
+
 def get_state_parameter(request_args, kwargs):
     """Find a state value from a set of possible places."""
     try:
-- 
2.43.0


From e42c459e13fcf96a4bc546a79e4597cfd04aa87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:43 +0000
Subject: [PATCH 73/80] fix: session checks carry the ID Token as it was
 received

---
 src/oidcrp/oidc/check_id.py      | 3 ++-
 src/oidcrp/oidc/check_session.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oidc/check_id.py b/src/oidcrp/oidc/check_id.py
index 8ef8dd8..d592ff4 100644
--- a/src/oidcrp/oidc/check_id.py
+++ b/src/oidcrp/oidc/check_id.py
@@ -27,5 +27,6 @@ class CheckID(Service):
     def oidc_pre_construct(self, request_args=None, **kwargs):
         request_args = self.client_get("service_context").state.multiple_extend_request_args(
             request_args, kwargs['state'], ['id_token'],
-            ['auth_response', 'token_response', 'refresh_token_response'])
+            ['auth_response', 'token_response', 'refresh_token_response'],
+            orig=True)
         return request_args, {}
diff --git a/src/oidcrp/oidc/check_session.py b/src/oidcrp/oidc/check_session.py
index bf7661a..76367ef 100644
--- a/src/oidcrp/oidc/check_session.py
+++ b/src/oidcrp/oidc/check_session.py
@@ -27,5 +27,6 @@ class CheckSession(Service):
     def oidc_pre_construct(self, request_args=None, **kwargs):
         request_args = self.client_get("service_context").state.multiple_extend_request_args(
             request_args, kwargs['state'], ['id_token'],
-            ['auth_response', 'token_response', 'refresh_token_response'])
+            ['auth_response', 'token_response', 'refresh_token_response'],
+            orig=True)
         return request_args, {}
-- 
2.43.0


From d5a3f644398fe13a6c388b6cbae52d040205832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:40 +0000
Subject: [PATCH 74/80] fix: the algorithms a static client is configured with
 are enforced for ID Tokens and logout tokens

---
 src/oidcrp/oidc/access_token.py  | 3 ++-
 src/oidcrp/oidc/authorization.py | 3 ++-
 src/oidcrp/rp_handler.py         | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/oidc/access_token.py b/src/oidcrp/oidc/access_token.py
index c805293..fdc93ea 100644
--- a/src/oidcrp/oidc/access_token.py
+++ b/src/oidcrp/oidc/access_token.py
@@ -47,7 +47,8 @@ class AccessToken(access_token.AccessToken):
             'skew': _context.clock_skew,
         }
 
-        _reg_resp = _context.registration_response
+        # A client that has not registered dynamically has been configured with the values
+        _reg_resp = _context.registration_response or _context.behaviour
         if _reg_resp:
             for attr, param in IDT2REG.items():
                 try:
diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index 7ecfee6..0e26d09 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -288,7 +288,8 @@ class Authorization(authorization.Authorization):
         if _client_id:
             kwargs['client_id'] = _client_id
 
-        _reg_res = _context.registration_response
+        # A client that has not registered dynamically has been configured with the values
+        _reg_res = _context.registration_response or _context.behaviour
         if _reg_res:
             for attr, param in IDT2REG.items():
                 try:
diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 169798c..a6dc922 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -1039,8 +1039,8 @@ def backchannel_logout(client, request='', request_args=None):
         'aud': client.get_client_id(),
         'iss': _context.get('issuer'),
         'keyjar': _context.keyjar,
-        'allowed_sign_alg': _context.get('registration_response').get(
-            "id_token_signed_response_alg", "RS256")
+        'allowed_sign_alg': (_context.get('registration_response') or _context.get(
+            'behaviour')).get("id_token_signed_response_alg", "RS256")
     }
 
     logger.debug(f"(backchannel_logout) Verifying request using: {kwargs}")
-- 
2.43.0


From 141cb0cfe3c310d116ab16ee6110780d4c5cccd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:31 +0000
Subject: [PATCH 75/80] fix: a static client can verify what is signed with its
 client secret

---
 src/oidcrp/oidc/access_token.py  |  3 +++
 src/oidcrp/oidc/authorization.py |  3 +++
 src/oidcrp/oidc/utils.py         | 16 ++++++++++++++++
 src/oidcrp/rp_handler.py         |  3 ++-
 4 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/access_token.py b/src/oidcrp/oidc/access_token.py
index fdc93ea..898b315 100644
--- a/src/oidcrp/oidc/access_token.py
+++ b/src/oidcrp/oidc/access_token.py
@@ -10,6 +10,7 @@ from oidcmsg.time_util import time_sans_frac
 from oidcrp.exception import ParameterError
 from oidcrp.oauth2 import access_token
 from oidcrp.oidc import IDT2REG
+from oidcrp.oidc.utils import verification_keys
 
 __author__ = 'Roland Hedberg'
 
@@ -56,6 +57,8 @@ class AccessToken(access_token.AccessToken):
                 except KeyError:
                     pass
 
+        kwargs['keyjar'] = verification_keys(_context, kwargs.get('sigalg'))
+
         try:
             kwargs['allow_missing_kid'] = _context.allow['missing_kid']
         except KeyError:
diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index 0e26d09..a5cfc46 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -19,6 +19,7 @@ from oidcrp.oauth2.utils import pre_construct_pick_redirect_uri
 from oidcrp.oidc import IDT2REG
 from oidcrp.oidc.utils import construct_request_uri
 from oidcrp.oidc.utils import request_object_encryption
+from oidcrp.oidc.utils import verification_keys
 from oidcrp.util import rndstr
 
 __author__ = 'Roland Hedberg'
@@ -297,6 +298,8 @@ class Authorization(authorization.Authorization):
                 except KeyError:
                     pass
 
+        kwargs['keyjar'] = verification_keys(_context, kwargs.get('sigalg'))
+
         try:
             kwargs['allow_missing_kid'] = _context.allow['missing_kid']
         except KeyError:
diff --git a/src/oidcrp/oidc/utils.py b/src/oidcrp/oidc/utils.py
index 99b2eed..60d0df8 100644
--- a/src/oidcrp/oidc/utils.py
+++ b/src/oidcrp/oidc/utils.py
@@ -86,3 +86,19 @@ def construct_request_uri(local_dir, base_path, **kwargs):
     else:
         _webname = f"{_webpath}/{_name}"
     return filename, _webname
+
+
+def verification_keys(service_context, alg=''):
+    """
+    The keys something signed by the provider can be verified with.
+
+    :param service_context: A :py:class:`oidcrp.service_context.ServiceContext` instance
+    :param alg: The signing algorithm that is expected
+    :return: A KeyJar instance. If signatures are made with the client secret then one
+        that has the secret.
+    """
+    _keyjar = service_context.keyjar
+    if alg and alg.startswith("HS") and service_context.client_secret:
+        _keyjar = _keyjar.copy()
+        _keyjar.add_symmetric(service_context.issuer, service_context.client_secret)
+    return _keyjar
diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index a6dc922..2ae506f 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -33,6 +33,7 @@ from .exception import OidcServiceError
 from .oauth2 import Client
 from .oauth2 import dynamic_provider_info_discovery
 from .oauth2.utils import pick_redirect_uri
+from .oidc.utils import verification_keys
 from .util import add_path
 from .util import load_registration_response
 from .util import rndstr
@@ -1038,10 +1039,10 @@ def backchannel_logout(client, request='', request_args=None):
     kwargs = {
         'aud': client.get_client_id(),
         'iss': _context.get('issuer'),
-        'keyjar': _context.keyjar,
         'allowed_sign_alg': (_context.get('registration_response') or _context.get(
             'behaviour')).get("id_token_signed_response_alg", "RS256")
     }
+    kwargs['keyjar'] = verification_keys(_context, kwargs['allowed_sign_alg'])
 
     logger.debug(f"(backchannel_logout) Verifying request using: {kwargs}")
     try:
-- 
2.43.0


From dbae6888faa1319ae7ad687ff4af4be4e6133fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:46 +0000
Subject: [PATCH 76/80] fix: verifying something signed with the client secret
 needs no key of the provider

---
 src/oidcrp/oidc/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/oidc/utils.py b/src/oidcrp/oidc/utils.py
index 60d0df8..524a418 100644
--- a/src/oidcrp/oidc/utils.py
+++ b/src/oidcrp/oidc/utils.py
@@ -2,6 +2,7 @@ import os
 
 from cryptojwt.jwe.jwe import JWE
 from cryptojwt.jwe.utils import alg2keytype
+from cryptojwt.key_jar import KeyJar
 from oidcmsg.exception import MissingRequiredAttribute
 
 from oidcrp.util import rndstr
@@ -95,10 +96,11 @@ def verification_keys(service_context, alg=''):
     :param service_context: A :py:class:`oidcrp.service_context.ServiceContext` instance
     :param alg: The signing algorithm that is expected
     :return: A KeyJar instance. If signatures are made with the client secret then one
-        that has the secret.
+        with the secret and the client's own keys.
     """
-    _keyjar = service_context.keyjar
     if alg and alg.startswith("HS") and service_context.client_secret:
-        _keyjar = _keyjar.copy()
+        _keyjar = KeyJar()
+        _keyjar.import_jwks(service_context.keyjar.export_jwks(True, ""), "")
         _keyjar.add_symmetric(service_context.issuer, service_context.client_secret)
-    return _keyjar
+        return _keyjar
+    return service_context.keyjar
-- 
2.43.0


From 6caba81af5d17de88b631116ae53ba6342ae021d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:29 +0000
Subject: [PATCH 77/80] fix: redirect URIs given for the registration are used
 also if others are configured

---
 src/oidcrp/oidc/registration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index 12fc6b4..a718388 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -285,9 +285,9 @@ class Registration(Service):
             resp["token_endpoint_auth_method"] = "client_secret_basic"
 
         _context.registration_response = resp
-        if not _context.redirect_uris and 'redirect_uris' not in _context.callback:
+        if 'redirect_uris' not in _context.callback:
             # They were given as arguments to the registration
-            _context.redirect_uris = resp.get("redirect_uris", [])
+            _context.redirect_uris = resp.get("redirect_uris", _context.redirect_uris)
         _client_id = resp.get("client_id")
         if _client_id:
             _context.client_id = _client_id
-- 
2.43.0


From a6affe5b8a7dde6adbd4ffb408c908be0d7650f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:47 +0000
Subject: [PATCH 78/80] fix: the post logout redirect URI given for the
 registration is used at logout

---
 src/oidcrp/oidc/end_session.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcrp/oidc/end_session.py b/src/oidcrp/oidc/end_session.py
index ae64657..d14c6eb 100644
--- a/src/oidcrp/oidc/end_session.py
+++ b/src/oidcrp/oidc/end_session.py
@@ -63,6 +63,9 @@ class EndSession(Service):
                     request_args['post_logout_redirect_uri'] = _uri[0]
             else:
                 _uri = _context.callback.get("post_logout_redirect_uris")
+                if not _uri and _context.registration_response:
+                    # It may have been given as an argument to the registration
+                    _uri = _context.registration_response.get("post_logout_redirect_uris")
                 if isinstance(_uri, str) and _uri:
                     request_args['post_logout_redirect_uri'] = _uri
                 elif _uri:
-- 
2.43.0


From 808b166ca40af229ff57f25d16f021f830c4b29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:02 +0000
Subject: [PATCH 79/80] fix: a context can be dumped also when its
 configuration holds a HTTP client

---
 src/oidcrp/service_context.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index ae6b05c..7d2fefa 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -89,6 +89,17 @@ def plain_copy(item):
     return item
 
 
+def plain_part(item):
+    """What is left when everything that can't be represented in JSON is removed."""
+    if isinstance(item, (dict, Message)):
+        return {k: plain_part(v) for k, v in item.items()
+                if isinstance(v, (dict, Message, list, tuple)) or is_plain(v)}
+    if isinstance(item, (list, tuple)):
+        return [plain_part(v) for v in item
+                if isinstance(v, (dict, Message, list, tuple)) or is_plain(v)]
+    return item
+
+
 # def add_issuer(conf, issuer):
 #     res = {}
 #     for key, val in conf.items():
@@ -232,6 +243,8 @@ class ServiceContext(OidcContext):
         if 'add_on' in info:
             info['add_on'] = {name: {k: v for k, v in args.items() if is_plain(v)}
                               for name, args in info['add_on'].items()}
+        if 'config' in info:
+            info['config'] = plain_part(info['config'])
         return plain_copy(info)
 
     def load(self, item: dict, init_args: Optional[dict] = None,
-- 
2.43.0


From c42b4ffce41909901bfa09ec9dc045129657dff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:05 +0000
Subject: [PATCH 80/80] fix: keys given as an argument for the registration are
 registered

---
 src/oidcrp/oidc/registration.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index a718388..e0edbe0 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -260,6 +260,13 @@ class Registration(Service):
                     pass
         return request_args, {}
 
+    def gather_request_args(self, **kwargs):
+        ar_args = Service.gather_request_args(self, **kwargs)
+        if 'jwks' in kwargs and 'jwks_uri' not in kwargs:
+            # Keys given for this request go before the configured place to find keys
+            ar_args.pop('jwks_uri', None)
+        return ar_args
+
     def oidc_post_construct(self, request_args=None, **kwargs):
         try:
             _needed = response_types_to_grant_types(request_args['response_types'])
-- 
2.43.0

