From 3e35344d123a4f8fe5f7ab37a234bde3a24e45ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:53 +0000
Subject: [PATCH 01/61] fix: add_base_path needs the os module

---
 src/oidcmsg/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/__init__.py b/src/oidcmsg/__init__.py
index 6c54ecc..327fed6 100755
--- a/src/oidcmsg/__init__.py
+++ b/src/oidcmsg/__init__.py
@@ -1,3 +1,5 @@
+import os
+
 __author__ = 'Roland Hedberg'
 __version__ = '1.1.3'
 
-- 
2.43.0


From 86ba41d363296eda9dd9566f40b143d9cb68417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:53 +0000
Subject: [PATCH 02/61] fix: an instance must not share mutable default values
 with its class

---
 src/oidcmsg/message.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index f2991ed..b9969dd 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -36,7 +36,7 @@ class Message(MutableMapping):
 
     def __init__(self, set_defaults=True, **kwargs):
         if set_defaults:
-            self._dict = self.c_default.copy()
+            self._dict = copy.deepcopy(self.c_default)
         else:
             self._dict = {}
         self.lax = False
@@ -75,7 +75,7 @@ class Message(MutableMapping):
         Based on specification set a parameters value to the default value.
         """
         for key, val in self.c_default.items():
-            self._dict.setdefault(key, val)
+            self._dict.setdefault(key, copy.deepcopy(val))
 
     def to_urlencoded(self, lev=0):
         """
-- 
2.43.0


From 610a2088b334960148c4e386d81b30df24d08161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:53 +0000
Subject: [PATCH 03/61] fix: OIDC authorization error codes must not leak into
 the OAuth2 class

---
 src/oidcmsg/oidc/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index e21a7cb..5fc457b 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -390,7 +390,7 @@ class AuthorizationResponse(oauth2.AuthorizationResponse,
 class AuthorizationErrorResponse(oauth2.AuthorizationErrorResponse):
     c_allowed_values = oauth2.AuthorizationErrorResponse.c_allowed_values \
         .copy()
-    c_allowed_values["error"].extend(["interaction_required",
+    c_allowed_values["error"] = c_allowed_values["error"] + ["interaction_required",
                                       "login_required",
                                       "session_selection_required",
                                       "consent_required",
@@ -398,7 +398,7 @@ class AuthorizationErrorResponse(oauth2.AuthorizationErrorResponse):
                                       "invalid_request_object",
                                       "registration_not_supported",
                                       "request_not_supported",
-                                      "request_uri_not_supported"])
+                                      "request_uri_not_supported"]
 
 
 class AuthorizationRequest(oauth2.AuthorizationRequest):
-- 
2.43.0


From cd31ea186fc944ab06c9f2b085c9f73748200d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:28 +0000
Subject: [PATCH 04/61] fix: 'verified' slots supplied by the sender must not
 survive verification

---
 src/oidcmsg/oauth2/__init__.py | 16 ++++++++--------
 src/oidcmsg/oidc/__init__.py   |  8 ++++++++
 src/oidcmsg/oidc/session.py    |  4 ++++
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 30f65b0..8987e5c 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -329,11 +329,11 @@ class JWTSecuredAuthorizationRequest(AuthorizationRequest):
     })
 
     def verify(self, **kwargs):
-        if "request" in self:
-            _vc_name = verified_claim_name("request")
-            if _vc_name in self:
-                del self[_vc_name]
+        _vc_name = verified_claim_name("request")
+        if _vc_name in self:
+            del self[_vc_name]
 
+        if "request" in self:
             args = {}
             for arg in ["keyjar", "opponent_id", "sender", "alg", "encalg",
                         "encenc"]:
@@ -358,11 +358,11 @@ class PushedAuthorizationRequest(AuthorizationRequest):
     })
 
     def verify(self, **kwargs):
-        if "request" in self:
-            _vc_name = verified_claim_name("request")
-            if _vc_name in self:
-                del self[_vc_name]
+        _vc_name = verified_claim_name("request")
+        if _vc_name in self:
+            del self[_vc_name]
 
+        if "request" in self:
             args = {}
             for arg in ["keyjar", "opponent_id", "sender", "alg", "encalg",
                         "encenc"]:
diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 5fc457b..4e7d617 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -458,6 +458,7 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
             if isinstance(self["request"], str):
                 # Try to decode the JWT, checks the signature
                 oidr = OpenIDRequest().from_jwt(str(self["request"]), **args)
+                clear_verified_claims(oidr)
 
                 # check if something is change in the original message
                 for key, val in oidr.items():
@@ -477,6 +478,10 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
                 # replace the JWT with the parsed and verified instance
                 self[verified_claim_name("request")] = oidr
 
+        # only set below, never by the sender
+        if "verified_id_token_hint" in self:
+            del self["verified_id_token_hint"]
+
         if "id_token_hint" in self:
             if isinstance(self["id_token_hint"], str):
                 idt = IdToken().from_jwt(str(self["id_token_hint"]), **args)
@@ -837,6 +842,9 @@ class MessageWithIdToken(Message):
 
     def verify(self, **kwargs):
         super(MessageWithIdToken, self).verify(**kwargs)
+
+        clear_verified_claims(self)
+
         if "id_token" in self:
             if not verify_id_token(self, **kwargs):
                 return False
diff --git a/src/oidcmsg/oidc/session.py b/src/oidcmsg/oidc/session.py
index 7a9550a..4a6ce9c 100644
--- a/src/oidcmsg/oidc/session.py
+++ b/src/oidcmsg/oidc/session.py
@@ -170,6 +170,10 @@ class BackChannelLogoutRequest(Message):
     def verify(self, **kwargs):
         super(BackChannelLogoutRequest, self).verify(**kwargs)
 
+        # only set below, never by the sender
+        if verified_claim_name("logout_token") in self:
+            del self[verified_claim_name("logout_token")]
+
         args = {}
         for arg in ID_TOKEN_VERIFY_ARGS:
             try:
-- 
2.43.0


From 178daeb615d74e5b91b22ce7021836ce0e2f47b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:06 +0000
Subject: [PATCH 05/61] fix: back-channel logout tokens must be signed

---
 src/oidcmsg/oidc/session.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcmsg/oidc/session.py b/src/oidcmsg/oidc/session.py
index 4a6ce9c..0890a71 100644
--- a/src/oidcmsg/oidc/session.py
+++ b/src/oidcmsg/oidc/session.py
@@ -181,6 +181,9 @@ class BackChannelLogoutRequest(Message):
             except KeyError:
                 pass
         idt = LogoutToken().from_jwt(str(self["logout_token"]), **args)
+        # A logout token MUST be signed, "none" is not an allowed algorithm
+        if not idt.jws_header or idt.jws_header.get('alg', 'none') == 'none':
+            raise UnsupportedAlgorithm('Logout token must be signed')
         if not idt.verify(**kwargs):
             return False
 
-- 
2.43.0


From 1367129a325ab6dc5491e2f8dd33d6077ad56c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:10 +0000
Subject: [PATCH 06/61] fix: an unsigned id_token_hint is not verified unless
 alg none is allowed

---
 src/oidcmsg/oidc/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 4e7d617..26e892e 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -485,6 +485,10 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
         if "id_token_hint" in self:
             if isinstance(self["id_token_hint"], str):
                 idt = IdToken().from_jwt(str(self["id_token_hint"]), **args)
+                # same rule for unsigned ID Tokens as in verify_id_token
+                if not idt.jws_header or idt.jws_header.get("alg", "none") == "none":
+                    if kwargs.get("sigalg") != "none" and not kwargs.get("allow_sign_alg_none"):
+                        raise UnsupportedAlgorithm('Signing algorithm None not allowed')
                 self["verified_id_token_hint"] = idt
 
         if "response_type" not in self:
-- 
2.43.0


From 713728fa440ed1deaa744c30ef7af5d69507e0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:40 +0000
Subject: [PATCH 07/61] fix: apply the message rules to the outcome of merging
 a request object

---
 src/oidcmsg/oauth2/__init__.py | 3 +++
 src/oidcmsg/oidc/__init__.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 8987e5c..78a5c9a 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -344,6 +344,7 @@ class JWTSecuredAuthorizationRequest(AuthorizationRequest):
 
             _req = AuthorizationRequest().from_jwt(str(self["request"]), **args)
             self.merge(_req, 'strict')
+            super(JWTSecuredAuthorizationRequest, self).verify(**kwargs)
             self[_vc_name] = _req
         elif "request_uri" not in self:
             raise MissingAttribute("One of request or request_uri must be present")
@@ -375,6 +376,8 @@ class PushedAuthorizationRequest(AuthorizationRequest):
             self.merge(_req, "lax")
             self[_vc_name] = _req
 
+        super(PushedAuthorizationRequest, self).verify(**kwargs)
+
         return True
 
 
diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 26e892e..182c6f7 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -475,6 +475,9 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
 
                 self.update(oidr)
 
+                # what came out of the request object must follow the rules too
+                super(AuthorizationRequest, self).verify(**kwargs)
+
                 # replace the JWT with the parsed and verified instance
                 self[verified_claim_name("request")] = oidr
 
-- 
2.43.0


From a92b41e4a96b68755fa2ff3aaf5d3a4d870f2499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 08/61] fix: file store must delete the file a key was written
 to

---
 src/oidcmsg/storage/abfile.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 248b99b..c002732 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -126,16 +126,22 @@ class AbstractFileSystem(Storage):
         self.fmtime[_key] = self.get_mtime(fname)
 
     def __delitem__(self, key):
-        fname = os.path.join(self.fdir, key)
+        self._delete(self.key_conv.serialize(key))
+
+    def _delete(self, _key):
+        """
+        Remove the file, and what is known about it.
+
+        :param _key: File name, that is the serialized key
+        """
+        fname = os.path.join(self.fdir, _key)
         if os.path.isfile(fname):
             lock = FileLock('{}.lock'.format(fname))
             with lock:
                 os.unlink(fname)
 
-        try:
-            del self.storage[key]
-        except KeyError:
-            pass
+        self.storage.pop(_key, None)
+        self.fmtime.pop(_key, None)
 
     def keys(self):
         """
@@ -249,7 +255,7 @@ class AbstractFileSystem(Storage):
             return
 
         for f in os.listdir(self.fdir):
-            del self[f]
+            self._delete(f)
 
     def update(self, ava):
         """
-- 
2.43.0


From c77ea4d1d781ef675e27d9dc9db147ceb546494b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:12 +0000
Subject: [PATCH 09/61] fix: clearing the file store must not remove, or
 multiply, lock files

---
 src/oidcmsg/storage/abfile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index c002732..7038dce 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -255,6 +255,9 @@ class AbstractFileSystem(Storage):
             return
 
         for f in os.listdir(self.fdir):
+            if f.endswith('.lock'):
+                # a lock, somebody may hold it
+                continue
             self._delete(f)
 
     def update(self, ava):
-- 
2.43.0


From 01cd18885c24e63b499ae597e718adc769a6e484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:40 +0000
Subject: [PATCH 10/61] fix: file store must not pair a cached value with
 another writer's time stamp

---
 src/oidcmsg/storage/abfile.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 7038dce..c000b0a 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -121,9 +121,11 @@ class AbstractFileSystem(Storage):
             with open(fname, 'w') as fp:
                 fp.write(self.value_conv.serialize(value))
 
-        self.storage[_key] = value
+            # Still holding the lock, so it is this value that has this time stamp
+            self.storage[_key] = value
+            self.fmtime[_key] = self.get_mtime(fname)
+
         logger.debug('Wrote to "%s"', key)
-        self.fmtime[_key] = self.get_mtime(fname)
 
     def __delitem__(self, key):
         self._delete(self.key_conv.serialize(key))
@@ -138,7 +140,10 @@ class AbstractFileSystem(Storage):
         if os.path.isfile(fname):
             lock = FileLock('{}.lock'.format(fname))
             with lock:
-                os.unlink(fname)
+                try:
+                    os.unlink(fname)
+                except FileNotFoundError:  # someone else was faster
+                    pass
 
         self.storage.pop(_key, None)
         self.fmtime.pop(_key, None)
-- 
2.43.0


From eeafd8b63b7c473c04659b45136749035109232b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:44 +0000
Subject: [PATCH 11/61] fix: a value that can not be stored must not destroy
 the stored one

---
 src/oidcmsg/storage/abfile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index c000b0a..0cd7818 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -116,10 +116,15 @@ class AbstractFileSystem(Storage):
             _key = key
 
         fname = os.path.join(self.fdir, _key)
+        # If this fails the old value should still be there
+        _info = self.value_conv.serialize(value)
+        if not isinstance(_info, str):
+            raise TypeError('Can not store a {}'.format(type(_info)))
+
         lock = FileLock('{}.lock'.format(fname))
         with lock:
             with open(fname, 'w') as fp:
-                fp.write(self.value_conv.serialize(value))
+                fp.write(_info)
 
             # Still holding the lock, so it is this value that has this time stamp
             self.storage[_key] = value
-- 
2.43.0


From 1ab8839a902e465698f6cab037f706e1039f1c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:06 +0000
Subject: [PATCH 12/61] fix: file store must notice that another instance added
 or removed a key

---
 src/oidcmsg/storage/abfile.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 0cd7818..24938c3 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -227,7 +227,14 @@ class AbstractFileSystem(Storage):
         if not os.path.isdir(self.fdir):
             os.makedirs(self.fdir)
             # raise ValueError('No such directory: {}'.format(self.fdir))
-        for f in os.listdir(self.fdir):
+        _files = os.listdir(self.fdir)
+
+        # Someone else might have removed files
+        for f in set(self.storage.keys()).difference(_files):
+            self.storage.pop(f, None)
+            self.fmtime.pop(f, None)
+
+        for f in _files:
             fname = os.path.join(self.fdir, f)
 
             if not os.path.isfile(fname):
@@ -281,7 +288,7 @@ class AbstractFileSystem(Storage):
             self[key] = val
 
     def __contains__(self, item):
-        return self.key_conv.serialize(item) in self.storage
+        return os.path.isfile(os.path.join(self.fdir, self.key_conv.serialize(item)))
 
     def __iter__(self):
         return self.items()
-- 
2.43.0


From bd2883ec957ad4d62ccdb7833fb9efd135da180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 13/61] fix: update and iteration of labeled stores

---
 src/oidcmsg/storage/abfile.py    | 4 ++--
 src/oidcmsg/storage/extension.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 24938c3..0ba3d29 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -332,9 +332,9 @@ class LabeledAbstractFileSystem(Storage):
     def get(self, k, default=None):
         return self.storage.get(k, default)
 
-    @key_label
     def update(self, ava):
-        return self.storage.update(ava)
+        for key, val in ava.items():
+            self[key] = val
 
     @key_label
     def __getitem__(self, k):
diff --git a/src/oidcmsg/storage/extension.py b/src/oidcmsg/storage/extension.py
index 5554688..a29d7f6 100644
--- a/src/oidcmsg/storage/extension.py
+++ b/src/oidcmsg/storage/extension.py
@@ -35,9 +35,9 @@ class LabeledDict():
     def get(self, k, default=None):
         return self.storage.get(k, default)
 
-    @key_label
     def update(self, ava):
-        return self.storage.update(ava)
+        for key, val in ava.items():
+            self[key] = val
 
     @key_label
     def __getitem__(self, k):
@@ -60,7 +60,7 @@ class LabeledDict():
         return self.storage.__contains__(k)
 
     def __iter__(self):
-        for key, val in self.storage.__iter__():
+        for key, val in self.storage.items():
             if key.startswith(self.label):
                 yield key[self.label_len:], val
 
-- 
2.43.0


From cf4ba3f7eea6e17592e6ff14092bff68869b9f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 14/61] fix: SQL store must commit deletions, replace
 atomically and look only for keys

---
 src/oidcmsg/storage/absqlalchemy.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/oidcmsg/storage/absqlalchemy.py b/src/oidcmsg/storage/absqlalchemy.py
index 9314ab8..b237e87 100644
--- a/src/oidcmsg/storage/absqlalchemy.py
+++ b/src/oidcmsg/storage/absqlalchemy.py
@@ -24,11 +24,17 @@ class AbstractStorageSQLAlchemy:
         return entry.data
 
     def set(self, k, v):
-        self.delete(k)
+        # One transaction, the old value must not be lost if the insert fails
+        rem = self.table.delete().where(self.table.c.owner == k)
         ins = self.table.insert().values(owner=k,
                                          data=v)
-        self.session.execute(ins)
-        self.session.commit()
+        try:
+            self.session.execute(rem)
+            self.session.execute(ins)
+            self.session.commit()
+        except Exception:
+            self.session.rollback()
+            raise
         return 1
 
     def update(self, k, v):
@@ -50,18 +56,17 @@ class AbstractStorageSQLAlchemy:
         delquery = self.table.delete().where(self.table.c.owner == v)
         n_entries = self.session.query(self.table).filter(self.table.c.owner == v).count()
         self.session.execute(delquery)
+        self.session.commit()
         return n_entries
 
     def __contains__(self, k):
-        for entry in self():
-            if k in entry:
-                return 1
+        return self.get(k) is not None
 
     def __call__(self):
         return self.session.query(self.table).all()
 
     def __iter__(self):
-        return self.session.query(self.table)
+        return iter(self.session.query(self.table))
 
     def __str__(self):
         entries = []
-- 
2.43.0


From 4d6df1790190029fb497c754ce6bc7182d016a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 15/61] fix: length of a labeled file store when the label is
 escaped in file names

---
 src/oidcmsg/storage/abfile.py | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 0ba3d29..d1dd824 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -366,18 +366,4 @@ class LabeledAbstractFileSystem(Storage):
                 yield key[len(self.label):], val
 
     def __len__(self):
-        if not os.path.isdir(self.storage.fdir):
-            return 0
-
-        n = 0
-        for f in os.listdir(self.storage.fdir):
-            if f.startswith(self.label):
-                fname = os.path.join(self.storage.fdir, f)
-
-                if not os.path.isfile(fname):
-                    continue
-                if fname.endswith('.lock'):
-                    continue
-
-                n += 1
-        return n
+        return len(self.keys())
-- 
2.43.0


From 4ed1676a6e8f3b05b5668a59f405be218dcc9648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:53 +0000
Subject: [PATCH 16/61] fix: ISO 8601 time stamps must use the UTC offset of
 the time they describe

---
 src/oidcmsg/oidc/identity_assurance.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index cff6eb2..3709e7f 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -57,9 +57,6 @@ def to_iso8601_2004(val=0, format=TIME_FORMAT):
     :return: A string following the DATE_FORMAT format
     """
 
-    # Finds the local time zone
-    ltz = datetime.datetime.utcnow().astimezone().tzinfo
-
     if val:
         if isinstance(val, datetime.datetime):
             d = val
@@ -70,7 +67,11 @@ def to_iso8601_2004(val=0, format=TIME_FORMAT):
     else:
         d = datetime.datetime.now()
 
-    return d.replace(tzinfo=ltz).strftime(format)
+    if d.tzinfo is None:
+        # The local time zone with the UTC offset that applies at that time
+        d = d.astimezone()
+
+    return d.strftime(format)
 
 
 def from_iso8601_2004(isotime, format=TIME_FORMAT):
-- 
2.43.0


From 5744170d048f7fb60810d563e38cd98dc1d29632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:55 +0000
Subject: [PATCH 17/61] fix: a received ISO 8601 time stamp must be possible to
 serialize

---
 src/oidcmsg/oidc/identity_assurance.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index 3709e7f..4a40239 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -108,7 +108,11 @@ def time_stamp_ser(val, sformat="", lev=0):
     elif isinstance(val, float):
         return to_iso8601_2004_time(int(val))
     elif isinstance(val, str):
-        return to_iso8601_2004_time(int(val))
+        try:
+            val = int(val)
+        except ValueError:  # Must be in the right format already
+            return val
+        return to_iso8601_2004_time(val)
     else:
         raise ValueError("Wrong type of value")
 
@@ -133,7 +137,11 @@ def date_ser(val, sformat="", lev=0):
     elif isinstance(val, float):
         return to_iso8601_2004_date(int(val))
     elif isinstance(val, str):
-        return to_iso8601_2004_date(int(val))
+        try:
+            val = int(val)
+        except ValueError:  # Must be in the right format already
+            return val
+        return to_iso8601_2004_date(val)
     else:
         raise ValueError("Wrong type of value")
 
-- 
2.43.0


From 0e0deccc09b8a125fd4a0467e81b8b537166d260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:55 +0000
Subject: [PATCH 18/61] fix: proper_path must return a path that starts with
 "./"

---
 src/oidcmsg/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/__init__.py b/src/oidcmsg/__init__.py
index 327fed6..87ed2c5 100755
--- a/src/oidcmsg/__init__.py
+++ b/src/oidcmsg/__init__.py
@@ -24,6 +24,8 @@ def proper_path(path):
             path = path[1:]
         if path.startswith("/"):
             path = ".%s" % path
+        else:
+            path = "./%s" % path
     else:
         path = "./%s" % path
 
-- 
2.43.0


From ea412d1c299fe7816a88f6b7a54bcd17d7e2f601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:33 +0000
Subject: [PATCH 19/61] fix: accept all characters RFC 6749 allows in an error
 description

---
 src/oidcmsg/oauth2/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 78a5c9a..96adef6 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -1,6 +1,5 @@
 import inspect
 import logging
-import string
 import sys
 
 from oidcmsg import verified_claim_name
@@ -28,7 +27,8 @@ def is_error_message(msg):
         return False
 
 
-error_chars = set(string.ascii_uppercase + string.ascii_lowercase + " " + "!")
+# %x20-21 / %x23-5B / %x5D-7E
+error_chars = {chr(c) for c in range(0x20, 0x7F)}.difference('"\\')
 
 
 class ResponseMessage(Message):
-- 
2.43.0


From d8247b06e812b76f3ebcc4cbfca32406023c6c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:33 +0000
Subject: [PATCH 20/61] fix: "!" is an allowed character in a scope

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 182c6f7..fc0c980 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -227,7 +227,7 @@ for char in ['\x21', ('\x23', '\x5b'), ('\x5d', '\x7E')]:
             SCOPE_CHARSET.append(c)
             c = chr(ord(c) + 1)
     else:
-        SCOPE_CHARSET.append(set)
+        SCOPE_CHARSET.append(char)
 
 
 def check_char_set(string, allowed):
-- 
2.43.0


From 1729f15ba43132bb81b507efb95abb0eeafb9fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:37 +0000
Subject: [PATCH 21/61] fix: clock skew must make the not-before check more,
 not less, tolerant

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index fc0c980..bcbcb9c 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -998,7 +998,7 @@ class JsonWebToken(Message):
         except KeyError:
             pass
         else:
-            if _nbf > (_now - _skew):
+            if _nbf > (_now + _skew):
                 raise EXPError('Not valid yet')
 
         try:
-- 
2.43.0


From 9f19a61cdd664bf3ec675d2504ad0e223b34824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 22/61] fix: the audience of an authorization response is not a
 substring match

---
 src/oidcmsg/oidc/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index bcbcb9c..8a08cb4 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -376,8 +376,11 @@ class AuthorizationResponse(oauth2.AuthorizationResponse,
 
         if "aud" in self:
             if "client_id" in kwargs:
-                # check that it's for me
-                if kwargs["client_id"] not in self["aud"]:
+                # check that it's for me, aud can be a string or a list of strings
+                _aud = self["aud"]
+                if isinstance(_aud, str):
+                    _aud = [_aud]
+                if kwargs["client_id"] not in _aud:
                     return False
 
         if "id_token" in self:
-- 
2.43.0


From e4318444b7f3b2b9f266cc8d09cfdea808361e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 23/61] fix: merging with an empty whitelist must not keep
 every request parameter

---
 src/oidcmsg/oauth2/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 96adef6..78a9c2b 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -127,10 +127,10 @@ class AuthorizationRequest(Message):
                     del self[param]
         elif treatement == "lax":
             pass
-        elif treatement == "whitelist" and whitelist:
+        elif treatement == "whitelist":
             params = list(self.keys())
             for param in params:
-                if param not in whitelist:
+                if param not in (whitelist or []):
                     del self[param]
 
         self.update(request_object)
-- 
2.43.0


From ce0b0cbf7af7b8eba42429f4ecdfae52e8d14221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:46 +0000
Subject: [PATCH 24/61] fix: a JSON object is not a list of strings

---
 src/oidcmsg/message.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index b9969dd..aedf5f3 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -385,6 +385,8 @@ class Message(MutableMapping):
                 except Exception as exc:
                     raise DecodeError(ERRTXT % (key, exc))
                 else:
+                    if isinstance(val, dict):  # neither a list nor an object
+                        raise DecodeError(ERRTXT % (key, "type != %s" % vtype))
                     self._dict[skey] = val
             else:
                 raise DecodeError(ERRTXT % (key, "type != %s" % vtype))
-- 
2.43.0


From 10058576bd91afaf12ed1f2190773a42680fae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:31 +0000
Subject: [PATCH 25/61] fix: allow_http=False does not allow an http issuer

ProviderConfigurationResponse.verify only looked at whether allow_http was given, not at its value.
---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 8a08cb4..d204e6f 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -938,7 +938,7 @@ class ProviderConfigurationResponse(ResponseMessage):
                 check_char_set(scope, SCOPE_CHARSET)
 
         parts = urlparse(self["issuer"])
-        if 'allow_http' in kwargs:
+        if kwargs.get('allow_http'):
             pass
         elif parts.scheme != "https":
             raise SchemeError("Not HTTPS")
-- 
2.43.0


From 1ac80b0b95d09db68150d3316c6df389771c707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:24 +0000
Subject: [PATCH 26/61] fix: evidence of a named type can be verified

Evidence.verify called itself through the class for the type until the recursion limit, and
the type could never be guessed since 'type' itself was among the parameters looked for.
---
 src/oidcmsg/oidc/identity_assurance.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index 4a40239..30b94c9 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -240,27 +240,27 @@ class Evidence(Message):
         if _type:
             if _type == "id_document":
                 _doc = IdDocument(**self.to_dict())
-                _doc.verify(**kwargs)
+                super(Evidence, _doc).verify(**kwargs)
             elif _type == "utility_bill":
                 _bill = UtilityBill(**self.to_dict())
-                _bill.verify(**kwargs)
+                super(Evidence, _bill).verify(**kwargs)
             elif _type == "qes":
                 _qes = QES(**self.to_dict())
-                _qes.verify(**kwargs)
+                super(Evidence, _qes).verify(**kwargs)
             else:
                 raise ValueError("Unknown type")
         else:  # let the guessing begin
-            if all(x in self.keys() for x in IdDocument.c_param.keys()):
+            if all(x in self.keys() for x in IdDocument.c_param.keys() if x != 'type'):
                 _doc = IdDocument(**self.to_dict())
-                _doc.verify(**kwargs)
+                super(Evidence, _doc).verify(**kwargs)
                 self["type"] = "id_document"
-            elif all(x in self.keys() for x in UtilityBill.c_param.keys()):
+            elif all(x in self.keys() for x in UtilityBill.c_param.keys() if x != 'type'):
                 _bill = UtilityBill(**self.to_dict())
-                _bill.verify(**kwargs)
+                super(Evidence, _bill).verify(**kwargs)
                 self["type"] = "utility_bill"
-            elif all(x in self.keys() for x in QES.c_param.keys()):
+            elif all(x in self.keys() for x in QES.c_param.keys() if x != 'type'):
                 _qes = QES(**self.to_dict())
-                _qes.verify(**kwargs)
+                super(Evidence, _qes).verify(**kwargs)
                 self["type"] = "qes"
             else:
                 raise ValueError("Unknown object")
-- 
2.43.0


From def114d1a31f70f6800e773c282985cb72d79cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:58 +0000
Subject: [PATCH 27/61] fix: ClaimsConstructor takes the claim requests it
 documents

A dictionary with essential, value, values or purpose was refused for every claim of a known type, and
anything but None raised a TypeError for a claim that is a list.
---
 src/oidcmsg/oidc/identity_assurance.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index 30b94c9..830cc07 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -543,11 +543,21 @@ class ClaimsConstructor:
         if value is not None:
             _value_type = self.base_class.value_type(key)
             if _value_type:
-                if isinstance(value, ClaimsConstructor):
-                    if not isinstance(value.base_class, _value_type):
-                        raise ValueError("Wrong type of value '{}':'{}'".format(key, type(value.base_class)))
-                elif not _correct_value_type(value, _value_type):
-                    raise ValueError("Wrong type of value '{}':'{}'".format(key, type(value)))
+                if isinstance(_value_type, list):
+                    _value_type = _value_type[0]
+                    _vals = value if isinstance(value, list) else [value]
+                else:
+                    _vals = [value]
+
+                for _val in _vals:
+                    if isinstance(_val, ClaimsConstructor):
+                        _ok = isinstance(_val.base_class, _value_type)
+                    elif isinstance(_val, dict):
+                        _ok = _verify_claims_request_value(_val, _value_type)
+                    else:
+                        _ok = _correct_value_type(_val, _value_type)
+                    if not _ok:
+                        raise ValueError("Wrong type of value '{}':'{}'".format(key, type(_val)))
 
         self.info[key] = value
 
@@ -556,6 +566,8 @@ class ClaimsConstructor:
         for key, val in self.info.items():
             if isinstance(val, ClaimsConstructor):
                 res[key] = val.to_dict()
+            elif isinstance(val, list):
+                res[key] = [v.to_dict() if isinstance(v, ClaimsConstructor) else v for v in val]
             else:
                 res[key] = val
         return res
-- 
2.43.0


From 8833c4ee4c2d67da28f6794733b220c114ab1775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:14 +0000
Subject: [PATCH 28/61] fix: an AS configuration response is a response message

It has the error parameters but error_description was not checked, unlike in ProviderConfigurationResponse.
---
 src/oidcmsg/oauth2/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 78a9c2b..8d23320 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -238,7 +238,7 @@ class ResourceRequest(Message):
     c_param = {"access_token": SINGLE_OPTIONAL_STRING}
 
 
-class ASConfigurationResponse(Message):
+class ASConfigurationResponse(ResponseMessage):
     """
     Authorization Server configuration response
     """
-- 
2.43.0


From be407e01bcc17a913f3c69f154e37cb9f43594f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:09 +0000
Subject: [PATCH 29/61] fix: the time stamp 0 is not the current time

A received time stamp or date of 1970-01-01T00:00:00Z was serialized again as the time of serialization.
---
 src/oidcmsg/oidc/identity_assurance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index 830cc07..ce50b53 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -51,13 +51,13 @@ TIME_FORMAT = "%Y-%m-%dT%H:%M:%S%z"
 DATE_FORMAT = "%Y-%m-%d"
 
 
-def to_iso8601_2004(val=0, format=TIME_FORMAT):
+def to_iso8601_2004(val=None, format=TIME_FORMAT):
     """
     :param val: integer/float/datetime.datetime
     :return: A string following the DATE_FORMAT format
     """
 
-    if val:
+    if val is not None:
         if isinstance(val, datetime.datetime):
             d = val
         elif isinstance(val, (int, float)):
@@ -83,11 +83,11 @@ def from_iso8601_2004(isotime, format=TIME_FORMAT):
     return d.timestamp()
 
 
-def to_iso8601_2004_time(val=0):
+def to_iso8601_2004_time(val=None):
     return to_iso8601_2004(val, format=TIME_FORMAT)
 
 
-def to_iso8601_2004_date(val=0):
+def to_iso8601_2004_date(val=None):
     return to_iso8601_2004(val, format=DATE_FORMAT)
 
 
-- 
2.43.0


From 458f2ca563833151e915f191b54a3c25e77d48bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:16 +0000
Subject: [PATCH 30/61] fix: a file with an older modification time is a
 changed file too

Restoring a file, or moving another one into place, with its modification time preserved went unnoticed.
---
 src/oidcmsg/storage/abfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index d1dd824..2f0ef4d 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -196,7 +196,7 @@ class AbstractFileSystem(Storage):
                 self.fmtime[item] = mtime
                 return True
 
-            if mtime > _ftime:  # has changed
+            if mtime != _ftime:  # has changed, it may be a backup that was restored
                 self.fmtime[item] = mtime
                 return True
             else:
-- 
2.43.0


From c6c32422b08e3fcae5c9391d13355093573a2a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:20 +0000
Subject: [PATCH 31/61] fix: line endings inside a stored text are kept

Reading a file translated carriage returns to newlines, so another instance got another value.
---
 src/oidcmsg/storage/abfile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 2f0ef4d..b822c8e 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -123,7 +123,7 @@ class AbstractFileSystem(Storage):
 
         lock = FileLock('{}.lock'.format(fname))
         with lock:
-            with open(fname, 'w') as fp:
+            with open(fname, 'w', newline='') as fp:
                 fp.write(_info)
 
             # Still holding the lock, so it is this value that has this time stamp
@@ -210,7 +210,8 @@ class AbstractFileSystem(Storage):
             try:
                 lock = FileLock('{}.lock'.format(fname))
                 with lock:
-                    info = open(fname, 'r').read().strip()
+                    with open(fname, 'r', newline='') as fp:
+                        info = fp.read().strip()
                 return self.value_conv.deserialize(info)
             except Exception as err:
                 logger.error(err)
-- 
2.43.0


From 09080eab907d0cca7187c9d41d3e5704a3f18bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:25 +0000
Subject: [PATCH 32/61] fix: a write that fails or is interrupted leaves the
 stored value in place

The file was truncated first, so a full disk or a crash destroyed the value that was there.
---
 src/oidcmsg/storage/abfile.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index b822c8e..8c2828e 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -1,6 +1,8 @@
 import logging
 import os
+import shutil
 import time
+import uuid
 
 from filelock import FileLock
 
@@ -123,8 +125,19 @@ class AbstractFileSystem(Storage):
 
         lock = FileLock('{}.lock'.format(fname))
         with lock:
-            with open(fname, 'w', newline='') as fp:
-                fp.write(_info)
+            # An interrupted write must not harm the old value. The name makes it look like a lock
+            # file, that is not like a value, should it be left behind.
+            _tmp = os.path.join(self.fdir, '{}.lock'.format(uuid.uuid4().hex))
+            try:
+                with open(_tmp, 'w', newline='') as fp:
+                    fp.write(_info)
+                if os.path.isfile(fname):
+                    shutil.copymode(fname, _tmp)
+                os.replace(_tmp, fname)
+            except BaseException:
+                if os.path.exists(_tmp):
+                    os.unlink(_tmp)
+                raise
 
             # Still holding the lock, so it is this value that has this time stamp
             self.storage[_key] = value
-- 
2.43.0


From 31d7e23a46c14bfe3efd8247e2c717dc1182e534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:16 +0000
Subject: [PATCH 33/61] fix: a key that another process removes right now is a
 missing key

Depending on when the file disappeared the reader got None or a FileNotFoundError, and listing the keys failed.
---
 src/oidcmsg/storage/abfile.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 8c2828e..bb0cbcb 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -90,10 +90,14 @@ class AbstractFileSystem(Storage):
         """
         item = self.key_conv.serialize(item)
 
-        if self.is_changed(item):
-            logger.info("File content change in {}".format(item))
-            fname = os.path.join(self.fdir, item)
-            self.storage[item] = self._read_info(fname)
+        try:
+            if self.is_changed(item):
+                logger.info("File content change in {}".format(item))
+                fname = os.path.join(self.fdir, item)
+                self.storage[item] = self._read_info(fname)
+        except FileNotFoundError:  # someone else removed it just now
+            self.fmtime.pop(item, None)
+            raise KeyError(item)
 
         logger.debug('Read from "%s"', item)
         return self.storage[item]
@@ -231,7 +235,7 @@ class AbstractFileSystem(Storage):
                 raise
         else:
             logger.error('No such file: {}'.format(fname))
-        return None
+            raise FileNotFoundError(fname)
 
     def synch(self):
         """
@@ -257,11 +261,15 @@ class AbstractFileSystem(Storage):
                 continue
 
             if f in self.fmtime:
-                if self.is_changed(f):
-                    self.storage[f] = self._read_info(fname)
+                try:
+                    if self.is_changed(f):
+                        self.storage[f] = self._read_info(fname)
+                except (KeyError, FileNotFoundError):  # someone else removed it just now
+                    self.storage.pop(f, None)
+                    self.fmtime.pop(f, None)
             else:
-                mtime = self.get_mtime(fname)
                 try:
+                    mtime = self.get_mtime(fname)
                     self.storage[f] = self._read_info(fname)
                 except Exception as err:
                     logger.warning('Bad content in {} ({})'.format(fname, err))
-- 
2.43.0


From 0ef8cfa498d4a91cdb18611517a0e2edbdbb9443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:22 +0000
Subject: [PATCH 34/61] fix: two changes of a file in quick succession are told
 apart

Within one tick of the clock of the file system the second one got the same modification time, and was
not noticed by other instances.
---
 src/oidcmsg/storage/abfile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index bb0cbcb..12feb10 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -137,6 +137,9 @@ class AbstractFileSystem(Storage):
                     fp.write(_info)
                 if os.path.isfile(fname):
                     shutil.copymode(fname, _tmp)
+                # The file system may use a clock that is too coarse to tell two changes apart
+                _now = time.time_ns()
+                os.utime(_tmp, ns=(_now, _now))
                 os.replace(_tmp, fname)
             except BaseException:
                 if os.path.exists(_tmp):
-- 
2.43.0


From 0513ed67d8b6c7051cc117b5448347485a8d006e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:47 +0000
Subject: [PATCH 35/61] fix: a listing does not show an outdated value of a key
 that is removed meanwhile

---
 src/oidcmsg/storage/abfile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 12feb10..f436eee 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -258,7 +258,9 @@ class AbstractFileSystem(Storage):
         for f in _files:
             fname = os.path.join(self.fdir, f)
 
-            if not os.path.isfile(fname):
+            if not os.path.isfile(fname):  # a directory, or removed after all
+                self.storage.pop(f, None)
+                self.fmtime.pop(f, None)
                 continue
             if fname.endswith('.lock'):
                 continue
-- 
2.43.0


From ec0884dbdbce0912a3d15b6928285928a9da4aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:13 +0000
Subject: [PATCH 36/61] fix: restarting with a stored key jar does not
 duplicate the keys

Every start added the configured keys, and the copies under the entity's own name, once more.
---
 src/oidcmsg/context.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/context.py b/src/oidcmsg/context.py
index 30a38e1..c6951be 100644
--- a/src/oidcmsg/context.py
+++ b/src/oidcmsg/context.py
@@ -22,6 +22,21 @@ def add_issuer(conf, issuer):
     return res
 
 
+def import_new_keys(keyjar, jwks, issuer_id):
+    """
+    Import keys into a key jar, which may be a stored one that already has them.
+    """
+    if issuer_id in keyjar:
+        _jar = KeyJar()
+        _jar.import_jwks(jwks, issuer_id)
+        _known = keyjar.export_jwks(True, issuer_id)['keys']
+        jwks = {'keys': [k for k in _jar.export_jwks(True, issuer_id)['keys'] if k not in _known]}
+        if not jwks['keys']:
+            return
+
+    keyjar.import_jwks(jwks, issuer_id)
+
+
 class OidcContext:
     def __init__(self, config=None, keyjar=None, entity_id=''):
         if config is None:
@@ -61,11 +76,11 @@ class OidcContext:
             else:
                 _keyjar = KeyJar(storage=_storage)
                 if 'jwks' in conf:
-                    _keyjar.import_jwks(conf['jwks'], '')
+                    import_new_keys(_keyjar, conf['jwks'], '')
 
             if '' in _keyjar and entity_id:
                 # make sure I have the keys under my own name too (if I know it)
-                _keyjar.import_jwks_as_json(_keyjar.export_jwks_as_json(True, ''), entity_id)
+                import_new_keys(_keyjar, _keyjar.export_jwks(True, ''), entity_id)
 
             _httpc_params = conf.get('httpc_params')
             if _httpc_params:
-- 
2.43.0


From fb4cb843e2e8d5f47e769d565cf1d3ca57da8a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:18 +0000
Subject: [PATCH 37/61] fix: a failed update in the SQL store doesn't leave the
 database locked

---
 src/oidcmsg/storage/absqlalchemy.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/storage/absqlalchemy.py b/src/oidcmsg/storage/absqlalchemy.py
index b237e87..4ba5e3f 100644
--- a/src/oidcmsg/storage/absqlalchemy.py
+++ b/src/oidcmsg/storage/absqlalchemy.py
@@ -45,8 +45,13 @@ class AbstractStorageSQLAlchemy:
         upquery = self.table.update(). \
             where(self.table.c.owner == k). \
             values(**{'data': v})
-        self.session.execute(upquery)
-        self.session.commit()
+        try:
+            self.session.execute(upquery)
+            self.session.commit()
+        except Exception:
+            # Releases the lock on the database
+            self.session.rollback()
+            raise
         return 1
 
     def delete(self, v):
-- 
2.43.0


From 6f9489cfe4de0f92c93ce41df5b7ecceb45a811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:20 +0000
Subject: [PATCH 38/61] fix: a context doesn't change the configured JWKS

---
 src/oidcmsg/context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/context.py b/src/oidcmsg/context.py
index c6951be..2ed19d5 100644
--- a/src/oidcmsg/context.py
+++ b/src/oidcmsg/context.py
@@ -26,6 +26,8 @@ def import_new_keys(keyjar, jwks, issuer_id):
     """
     Import keys into a key jar, which may be a stored one that already has them.
     """
+    # The import changes what it's given and it's someones configuration
+    jwks = copy.deepcopy(jwks)
     if issuer_id in keyjar:
         _jar = KeyJar()
         _jar.import_jwks(jwks, issuer_id)
-- 
2.43.0


From 3901dae3d770b4d7fd76f28fa978e41782a2bd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:26 +0000
Subject: [PATCH 39/61] fix: durations with minutes but no months can be parsed

---
 src/oidcmsg/time_util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/time_util.py b/src/oidcmsg/time_util.py
index 093db1c..c23c73e 100755
--- a/src/oidcmsg/time_util.py
+++ b/src/oidcmsg/time_util.py
@@ -101,7 +101,10 @@ def parse_duration(duration):
                 raise TimeUtilError("Missing T")
         else:
             try:
-                mod = duration[index:].index(code)
+                if typ == "tm_mon":  # 'M' after a 'T' are minutes
+                    mod = duration[index:].partition("T")[0].index(code)
+                else:
+                    mod = duration[index:].index(code)
                 try:
                     dic[typ] = int(duration[index:index + mod])
                 except ValueError:
-- 
2.43.0


From 2a8fc533ca76d8534c43b8987d38b8c5133ab433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:30 +0000
Subject: [PATCH 40/61] fix: adding a duration, a day has 24 hours

---
 src/oidcmsg/time_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/time_util.py b/src/oidcmsg/time_util.py
index c23c73e..eb30e9b 100755
--- a/src/oidcmsg/time_util.py
+++ b/src/oidcmsg/time_util.py
@@ -146,8 +146,8 @@ def add_duration(tid, duration):
         carry = f_quotient(temp, 60)
         # hours
         temp = tid.tm_hour + dur["tm_hour"] + carry
-        hour = modulo(temp, 60)
-        carry = f_quotient(temp, 60)
+        hour = modulo(temp, 24)
+        carry = f_quotient(temp, 24)
         # days
         if dur["tm_mday"] > maximum_day_in_month_for(year, month):
             temp_days = maximum_day_in_month_for(year, month)
-- 
2.43.0


From 706260dda372ecb13fd0f1594db76afdd665bfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:33 +0000
Subject: [PATCH 41/61] fix: durations are added in UTC, with fractions of a
 second accepted

---
 src/oidcmsg/time_util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/time_util.py b/src/oidcmsg/time_util.py
index eb30e9b..5695d13 100755
--- a/src/oidcmsg/time_util.py
+++ b/src/oidcmsg/time_util.py
@@ -168,8 +168,9 @@ def add_duration(tid, duration):
             month = modulo(temp, 1, 13)
             year += f_quotient(temp, 1, 13)
 
-        return time.localtime(time.mktime((year, month, days, hour, minutes,
-                                           secs, 0, 0, -1)))
+        # UTC all the way, and mktime doesn't accept fractions of a second
+        return time.gmtime(calendar.timegm((year, month, days, hour, minutes,
+                                            secs, 0, 0, 0)))
     else:
         pass
 
-- 
2.43.0


From 68ce290194cef7e8d69356f31b2f8ad884ab16f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:57 +0000
Subject: [PATCH 42/61] fix: a refused deletion left the SQL database locked

---
 src/oidcmsg/storage/absqlalchemy.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/storage/absqlalchemy.py b/src/oidcmsg/storage/absqlalchemy.py
index 4ba5e3f..1983391 100644
--- a/src/oidcmsg/storage/absqlalchemy.py
+++ b/src/oidcmsg/storage/absqlalchemy.py
@@ -60,8 +60,13 @@ class AbstractStorageSQLAlchemy:
         """
         delquery = self.table.delete().where(self.table.c.owner == v)
         n_entries = self.session.query(self.table).filter(self.table.c.owner == v).count()
-        self.session.execute(delquery)
-        self.session.commit()
+        try:
+            self.session.execute(delquery)
+            self.session.commit()
+        except Exception:
+            # Releases the lock on the database
+            self.session.rollback()
+            raise
         return n_entries
 
     def __contains__(self, k):
-- 
2.43.0


From 8a6484d7fad11a11134c6a16e2b5c7c5d6a129a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:18 +0000
Subject: [PATCH 43/61] fix: unsigned tokens passed although a signing
 algorithm was demanded

---
 src/oidcmsg/message.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index aedf5f3..a7f8480 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -20,6 +20,7 @@ from oidcmsg.exception import MissingSigningKey
 from oidcmsg.exception import NotAllowedValue
 from oidcmsg.exception import OidcMsgError
 from oidcmsg.exception import TooManyValues
+from oidcmsg.exception import WrongSigningAlgorithm
 
 logger = logging.getLogger(__name__)
 
@@ -523,6 +524,13 @@ class Message(MutableMapping):
         else:
             _verifier = jws_factory(txt)
 
+        if verify and kwargs.get('sigalg', 'none') not in ('', None, 'none'):
+            # Not signed at all is not what was expected
+            if not _verifier or _verifier.jwt.headers.get('alg', 'none') == 'none':
+                if not kwargs.get('allow_sign_alg_none'):
+                    raise WrongSigningAlgorithm(
+                        'Expected {}, not signed'.format(kwargs['sigalg']))
+
         if _verifier:
             _jwt = _verifier.jwt
             jso = _jwt.payload()
-- 
2.43.0


From 2026122fb7ef8b5b93a84570cf271137338a409d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:18 +0000
Subject: [PATCH 44/61] fix: durations with text after them or odd digits were
 accepted

---
 src/oidcmsg/time_util.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/oidcmsg/time_util.py b/src/oidcmsg/time_util.py
index 5695d13..19a38e8 100755
--- a/src/oidcmsg/time_util.py
+++ b/src/oidcmsg/time_util.py
@@ -73,6 +73,9 @@ D_FORMAT = [
     ("S", "tm_sec")
 ]
 
+# int and float takes more than this
+DIGITS = re.compile(r"[0-9.]+\Z")
+
 
 def parse_duration(duration):
     # (-)PnYnMnDTnHnMnS
@@ -105,6 +108,8 @@ def parse_duration(duration):
                     mod = duration[index:].partition("T")[0].index(code)
                 else:
                     mod = duration[index:].index(code)
+                if not DIGITS.match(duration[index:index + mod]):
+                    raise TimeUtilError("Not a number")
                 try:
                     dic[typ] = int(duration[index:index + mod])
                 except ValueError:
@@ -122,6 +127,8 @@ def parse_duration(duration):
 
         if index == len(duration):
             break
+    else:
+        raise TimeUtilError("Unexpected text at the end")
 
     return sign, dic
 
-- 
2.43.0


From 29ea76c3edddbcf4d6b01dde4d778c32078d1cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:35 +0000
Subject: [PATCH 45/61] fix: what the sender put where verified content belongs
 goes before anything is judged

---
 src/oidcmsg/oidc/__init__.py | 21 ++++++++++-----------
 src/oidcmsg/oidc/session.py  |  6 +++---
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index d204e6f..460f9b9 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -339,10 +339,10 @@ class AccessTokenResponse(oauth2.AccessTokenResponse):
     c_param.update({"id_token": SINGLE_OPTIONAL_STRING})
 
     def verify(self, **kwargs):
-        super(AccessTokenResponse, self).verify(**kwargs)
-
         clear_verified_claims(self)
 
+        super(AccessTokenResponse, self).verify(**kwargs)
+
         if "id_token" in self:
             if not verify_id_token(self, **kwargs):
                 return False
@@ -371,8 +371,8 @@ class AuthorizationResponse(oauth2.AuthorizationResponse,
     })
 
     def verify(self, **kwargs):
-        super(AuthorizationResponse, self).verify(**kwargs)
         clear_verified_claims(self)
+        super(AuthorizationResponse, self).verify(**kwargs)
 
         if "aud" in self:
             if "client_id" in kwargs:
@@ -442,9 +442,11 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
         All parameter values that are present both in the OAuth 2.0
         Authorization Request and in the OpenID Request Object MUST exactly
         match."""
-        super(AuthorizationRequest, self).verify(**kwargs)
-
+        # only set below, never by the sender
         clear_verified_claims(self)
+        self._dict.pop("verified_id_token_hint", None)
+
+        super(AuthorizationRequest, self).verify(**kwargs)
 
         args = {}
         for arg in ["keyjar", "opponent_id", "sender", "alg", "encalg",
@@ -462,6 +464,7 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
                 # Try to decode the JWT, checks the signature
                 oidr = OpenIDRequest().from_jwt(str(self["request"]), **args)
                 clear_verified_claims(oidr)
+                oidr._dict.pop("verified_id_token_hint", None)
 
                 # check if something is change in the original message
                 for key, val in oidr.items():
@@ -484,10 +487,6 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
                 # replace the JWT with the parsed and verified instance
                 self[verified_claim_name("request")] = oidr
 
-        # only set below, never by the sender
-        if "verified_id_token_hint" in self:
-            del self["verified_id_token_hint"]
-
         if "id_token_hint" in self:
             if isinstance(self["id_token_hint"], str):
                 idt = IdToken().from_jwt(str(self["id_token_hint"]), **args)
@@ -851,10 +850,10 @@ class MessageWithIdToken(Message):
     c_param = {"id_token": SINGLE_REQUIRED_IDTOKEN}
 
     def verify(self, **kwargs):
-        super(MessageWithIdToken, self).verify(**kwargs)
-
         clear_verified_claims(self)
 
+        super(MessageWithIdToken, self).verify(**kwargs)
+
         if "id_token" in self:
             if not verify_id_token(self, **kwargs):
                 return False
diff --git a/src/oidcmsg/oidc/session.py b/src/oidcmsg/oidc/session.py
index 0890a71..970f5bb 100644
--- a/src/oidcmsg/oidc/session.py
+++ b/src/oidcmsg/oidc/session.py
@@ -54,8 +54,8 @@ class EndSessionRequest(Message):
     }
 
     def verify(self, **kwargs):
-        super(EndSessionRequest, self).verify(**kwargs)
         clear_verified_claims(self)
+        super(EndSessionRequest, self).verify(**kwargs)
 
         if 'post_logout_redirect_uri' in self:
             if "id_token_hint" not in self:
@@ -168,12 +168,12 @@ class BackChannelLogoutRequest(Message):
     }
 
     def verify(self, **kwargs):
-        super(BackChannelLogoutRequest, self).verify(**kwargs)
-
         # only set below, never by the sender
         if verified_claim_name("logout_token") in self:
             del self[verified_claim_name("logout_token")]
 
+        super(BackChannelLogoutRequest, self).verify(**kwargs)
+
         args = {}
         for arg in ID_TOKEN_VERIFY_ARGS:
             try:
-- 
2.43.0


From 7f91de15c53a6436bc2c2c82a0ca5222cf6aa8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:20 +0000
Subject: [PATCH 46/61] fix: a claims request without value or values did not
 match if it had other members, or none

---
 src/oidcmsg/oidc/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 460f9b9..f5544bc 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -1230,8 +1230,9 @@ def claims_match(value, claimspec):
         if matched:
             break
 
-    # No values to test against so it's just about being there or not
-    if list(claimspec.keys()) == ['essential']:
+    # No values to test against so it's just about being there or not.
+    # Members that are not understood are ignored.
+    if "value" not in claimspec and "values" not in claimspec:
         return True
 
     return matched
-- 
2.43.0


From c1447353aa0ccd76d20098baaf6166f24ea06334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:20 +0000
Subject: [PATCH 47/61] fix: birthdates with white space, missing zeros or
 other digits than 0-9 were accepted

---
 src/oidcmsg/oidc/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index f5544bc..903a6fd 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -2,6 +2,7 @@
 import inspect
 import json
 import logging
+import re
 import sys
 import time
 from urllib.parse import urlencode
@@ -47,6 +48,8 @@ logger = logging.getLogger(__name__)
 
 NONCE_STORAGE_TIME = 4 * 3600
 
+BIRTHDATE = re.compile("[0-9]{4}(-[0-9]{2}-[0-9]{2})?")
+
 
 class AtHashError(VerificationError):
     pass
@@ -584,6 +587,10 @@ class OpenIDSchema(ResponseMessage):
 
         if "birthdate" in self:
             # Either YYYY-MM-DD or just YYYY or 0000-MM-DD
+            if not BIRTHDATE.fullmatch(self["birthdate"]):
+                # strptime would let through white space, missing zeros and other digits
+                raise VerificationError("Birthdate format error", self)
+
             try:
                 time.strptime(self["birthdate"], "%Y-%m-%d")
             except ValueError:
-- 
2.43.0


From 5931768c29d0e2ad6543ffa4db974249428e14aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:54 +0000
Subject: [PATCH 48/61] fix: a required boolean without a value was not seen as
 missing

---
 src/oidcmsg/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index a7f8480..36f223c 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -617,7 +617,7 @@ class Message(MutableMapping):
                     raise MissingRequiredAttribute("%s" % attribute)
                 continue
             else:
-                if typ == bool:
+                if typ == bool and isinstance(val, bool):  # False is a value
                     pass
                 elif not val:
                     if required:
-- 
2.43.0


From b6d807a13cd52c83bd15449499c99be5ae32d9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:22 +0000
Subject: [PATCH 49/61] fix: calling a file store lists what is in it, not what
 it saw last

---
 src/oidcmsg/storage/abfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index f436eee..ac9436f 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -321,7 +321,7 @@ class AbstractFileSystem(Storage):
         return self.items()
 
     def __call__(self, *args, **kwargs):
-        return [self.key_conv.deserialize(k) for k in self.storage.keys()]
+        return list(self.keys())
 
     def __len__(self):
         if not os.path.isdir(self.fdir):
-- 
2.43.0


From b7b5310a42c50e5eeee32881728708f564fc2e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:25 +0000
Subject: [PATCH 50/61] fix: reading a file store while going through it

---
 src/oidcmsg/storage/abfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index ac9436f..7ed1022 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -178,7 +178,7 @@ class AbstractFileSystem(Storage):
         Implements the dict.keys() method
         """
         self.synch()
-        for k in self.storage.keys():
+        for k in list(self.storage.keys()):  # reading may change what is known
             yield self.key_conv.deserialize(k)
 
     @staticmethod
@@ -286,7 +286,7 @@ class AbstractFileSystem(Storage):
         Implements the dict.items() method
         """
         self.synch()
-        for k, v in self.storage.items():
+        for k, v in list(self.storage.items()):  # reading may change what is known
             yield self.key_conv.deserialize(k), v
 
     def clear(self):
-- 
2.43.0


From 952b8b52f73f83e7a2c43732cefc0540384aaab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:29 +0000
Subject: [PATCH 51/61] fix: restrictions that are empty or of the wrong kind
 in identity assurance claims requests

---
 src/oidcmsg/oidc/identity_assurance.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index ce50b53..fe1ac88 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -418,6 +418,8 @@ def _correct_value_type(val, value_type):
     else:
         if not isinstance(val, value_type):  # the simple case
             return False
+        if value_type is int and isinstance(val, bool):
+            return False
     return True
 
 
@@ -426,21 +428,26 @@ def _verify_claims_request_value(value, value_type=str):
         return True
     elif isinstance(value, dict):
         # know about keys: essential, value and values, purpose
-        if not value.get("essential") in (None, True, False):
+        _e = value.get("essential")
+        if _e is not None and not isinstance(_e, bool):
             return False
 
         _v = value.get("value")
-        if _v:
+        if _v is not None:
             if not _correct_value_type(_v, value_type):
                 return False
 
         _vs = value.get("values", [])
+        if not isinstance(_vs, list):
+            return False
         for _v in _vs:
             if not _correct_value_type(_v, value_type):
                 return False
 
         _p = value.get("purpose")
-        if _p:
+        if _p is not None:
+            if not isinstance(_p, str):
+                return False
             if len(_p) < 3 or len(_p) > 300:
                 return False
             if not all(x in error_chars for x in _p):
-- 
2.43.0


From 6044f745c559ac581610782607832513c55b754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:55 +0000
Subject: [PATCH 52/61] fix: a single value for a list parameter without
 deserializer was set as an attribute and lost

---
 src/oidcmsg/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 36f223c..89cacc1 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -357,7 +357,7 @@ class Message(MutableMapping):
                     except Exception as exc:
                         raise DecodeError(ERRTXT % (key, exc))
                 else:
-                    setattr(self, skey, [val])
+                    self._dict[skey] = [val]
             elif isinstance(val, list):
                 if _deser:
                     try:
-- 
2.43.0


From f9850177f217213467770fc8574fd949cd667ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:30 +0000
Subject: [PATCH 53/61] fix: device access token requests need a device code,
 not an authorization code

---
 src/oidcmsg/oauth2/device_authorization.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/oidcmsg/oauth2/device_authorization.py b/src/oidcmsg/oauth2/device_authorization.py
index 4cb4e4f..aeed0e2 100644
--- a/src/oidcmsg/oauth2/device_authorization.py
+++ b/src/oidcmsg/oauth2/device_authorization.py
@@ -26,11 +26,25 @@ class AuthorizationResponse(Message):
 
 
 class AccessTokenRequest(oidc.AccessTokenRequest):
+    # What is required depends on whether there is a device code
+    c_param = oidc.AccessTokenRequest.c_param.copy()
+    c_param.update({
+        "code": SINGLE_OPTIONAL_STRING,
+        "redirect_uri": SINGLE_OPTIONAL_STRING,
+        "device_code": SINGLE_OPTIONAL_STRING,
+    })
+
     def verify(self, **kwargs):
         super(AccessTokenRequest, self).verify(**kwargs)
 
         if "device_code" in self:
             # then both client_id and grant_type MUST be present
-            for claim in ["grant_type", "client_id"]:
-                if claim not in self:
-                    raise MissingRequiredAttribute(claim)
+            required = ["device_code", "grant_type", "client_id"]
+        else:
+            required = ["code", "redirect_uri"]
+
+        for claim in required:
+            if not self.get(claim):
+                raise MissingRequiredAttribute(claim)
+
+        return True
-- 
2.43.0


From 1613c1d598733cc22bac72c47a01b64c0ba57b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:17 +0000
Subject: [PATCH 54/61] fix: file store: text is written and read as UTF-8,
 whatever the locale

---
 src/oidcmsg/storage/abfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 7ed1022..5653db0 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -133,7 +133,7 @@ class AbstractFileSystem(Storage):
             # file, that is not like a value, should it be left behind.
             _tmp = os.path.join(self.fdir, '{}.lock'.format(uuid.uuid4().hex))
             try:
-                with open(_tmp, 'w', newline='') as fp:
+                with open(_tmp, 'w', newline='', encoding='utf-8') as fp:
                     fp.write(_info)
                 if os.path.isfile(fname):
                     shutil.copymode(fname, _tmp)
@@ -230,7 +230,7 @@ class AbstractFileSystem(Storage):
             try:
                 lock = FileLock('{}.lock'.format(fname))
                 with lock:
-                    with open(fname, 'r', newline='') as fp:
+                    with open(fname, 'r', newline='', encoding='utf-8') as fp:
                         info = fp.read().strip()
                 return self.value_conv.deserialize(info)
             except Exception as err:
-- 
2.43.0


From 44edf6d48bbb08abe7510f283659c4a20e10ad2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:07 +0000
Subject: [PATCH 55/61] fix: file store: a value that could not be read was
 taken for read, the old one was given out from then on

---
 src/oidcmsg/storage/abfile.py | 42 ++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 5653db0..87d9833 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -93,14 +93,18 @@ class AbstractFileSystem(Storage):
         try:
             if self.is_changed(item):
                 logger.info("File content change in {}".format(item))
-                fname = os.path.join(self.fdir, item)
-                self.storage[item] = self._read_info(fname)
+                value = self._read_info(item)
+            else:
+                try:
+                    value = self.storage[item]
+                except KeyError:  # another thread just forgot about it
+                    value = self._read_info(item)
         except FileNotFoundError:  # someone else removed it just now
             self.fmtime.pop(item, None)
             raise KeyError(item)
 
         logger.debug('Read from "%s"', item)
-        return self.storage[item]
+        return value
 
     def __setitem__(self, key, value):
         """
@@ -201,7 +205,7 @@ class AbstractFileSystem(Storage):
 
     def is_changed(self, item):
         """
-        Find out if this item has been modified since last
+        Find out if this item has been modified since last it was read or written
 
         :param item: A key
         :return: True/False
@@ -213,11 +217,9 @@ class AbstractFileSystem(Storage):
             try:
                 _ftime = self.fmtime[item]
             except KeyError:  # Never been seen before
-                self.fmtime[item] = mtime
                 return True
 
             if mtime != _ftime:  # has changed, it may be a backup that was restored
-                self.fmtime[item] = mtime
                 return True
             else:
                 return False
@@ -225,14 +227,26 @@ class AbstractFileSystem(Storage):
             logger.error('Could not access {}'.format(fname))
             raise KeyError(item)
 
-    def _read_info(self, fname):
+    def _read_info(self, item):
+        """
+        Read a value from its file. If that fails, the next one who asks has to read it again.
+
+        :param item: A key
+        :return: The value
+        """
+        fname = os.path.join(self.fdir, item)
         if os.path.isfile(fname):
             try:
                 lock = FileLock('{}.lock'.format(fname))
                 with lock:
+                    mtime = self.get_mtime(fname)
                     with open(fname, 'r', newline='', encoding='utf-8') as fp:
                         info = fp.read().strip()
-                return self.value_conv.deserialize(info)
+                    value = self.value_conv.deserialize(info)
+                    # Still holding the lock, so it is this value that has this time stamp
+                    self.storage[item] = value
+                    self.fmtime[item] = mtime
+                return value
             except Exception as err:
                 logger.error(err)
                 raise
@@ -252,8 +266,9 @@ class AbstractFileSystem(Storage):
 
         # Someone else might have removed files
         for f in set(self.storage.keys()).difference(_files):
-            self.storage.pop(f, None)
-            self.fmtime.pop(f, None)
+            if not os.path.isfile(os.path.join(self.fdir, f)):
+                self.storage.pop(f, None)
+                self.fmtime.pop(f, None)
 
         for f in _files:
             fname = os.path.join(self.fdir, f)
@@ -268,18 +283,15 @@ class AbstractFileSystem(Storage):
             if f in self.fmtime:
                 try:
                     if self.is_changed(f):
-                        self.storage[f] = self._read_info(fname)
+                        self._read_info(f)
                 except (KeyError, FileNotFoundError):  # someone else removed it just now
                     self.storage.pop(f, None)
                     self.fmtime.pop(f, None)
             else:
                 try:
-                    mtime = self.get_mtime(fname)
-                    self.storage[f] = self._read_info(fname)
+                    self._read_info(f)
                 except Exception as err:
                     logger.warning('Bad content in {} ({})'.format(fname, err))
-                else:
-                    self.fmtime[f] = mtime
 
     def items(self):
         """
-- 
2.43.0


From 0748a3dfbc804fee59c51748d3270aeb5d722ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:10 +0000
Subject: [PATCH 56/61] fix: members of nested objects named set_defaults were
 lost, and those named self refused

---
 src/oidcmsg/message.py                 |  6 +++---
 src/oidcmsg/oidc/identity_assurance.py | 16 ++++++++--------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 89cacc1..36e9788 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -369,7 +369,7 @@ class Message(MutableMapping):
                     try:
                         _val = []
                         for v in val:
-                            _val.append(vtype(**{str(x): y for x, y in v.items()}))
+                            _val.append(vtype().from_dict({str(x): y for x, y in v.items()}))
                         val = _val
                     except Exception as exc:
                         raise DecodeError(ERRTXT % (key, exc))
@@ -951,7 +951,7 @@ def msg_ser(inst, sformat, lev=0):
 
 def msg_list_deser(val, sformat="urlencoded", lev=0):
     if isinstance(val, dict):
-        return [Message(**val)]
+        return [Message().from_dict(val)]
 
     _res = []
     for v in val:
@@ -1017,7 +1017,7 @@ def any_ser(val, sformat="urlencoded", lev=0):
 
 def any_deser(val, sformat="urlencoded", lev=0):
     if isinstance(val, dict):
-        return Message(**val)
+        return Message().from_dict(val)
     elif isinstance(val, list):
         return [msg_deser(v, sformat) for v in val]
     else:
diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index fe1ac88..abe6bf3 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -239,27 +239,27 @@ class Evidence(Message):
         _type = self.get("type")
         if _type:
             if _type == "id_document":
-                _doc = IdDocument(**self.to_dict())
+                _doc = IdDocument().from_dict(self.to_dict())
                 super(Evidence, _doc).verify(**kwargs)
             elif _type == "utility_bill":
-                _bill = UtilityBill(**self.to_dict())
+                _bill = UtilityBill().from_dict(self.to_dict())
                 super(Evidence, _bill).verify(**kwargs)
             elif _type == "qes":
-                _qes = QES(**self.to_dict())
+                _qes = QES().from_dict(self.to_dict())
                 super(Evidence, _qes).verify(**kwargs)
             else:
                 raise ValueError("Unknown type")
         else:  # let the guessing begin
             if all(x in self.keys() for x in IdDocument.c_param.keys() if x != 'type'):
-                _doc = IdDocument(**self.to_dict())
+                _doc = IdDocument().from_dict(self.to_dict())
                 super(Evidence, _doc).verify(**kwargs)
                 self["type"] = "id_document"
             elif all(x in self.keys() for x in UtilityBill.c_param.keys() if x != 'type'):
-                _bill = UtilityBill(**self.to_dict())
+                _bill = UtilityBill().from_dict(self.to_dict())
                 super(Evidence, _bill).verify(**kwargs)
                 self["type"] = "utility_bill"
             elif all(x in self.keys() for x in QES.c_param.keys() if x != 'type'):
-                _qes = QES(**self.to_dict())
+                _qes = QES().from_dict(self.to_dict())
                 super(Evidence, _qes).verify(**kwargs)
                 self["type"] = "qes"
             else:
@@ -272,7 +272,7 @@ def evidence_deser(val, sformat="urlencoded"):
 
 def evidence_list_deser(val, sformat="urlencoded", lev=0):
     if isinstance(val, dict):
-        return [Message(**val)]
+        return [Message().from_dict(val)]
 
     _res = [evidence_deser(v, sformat) for v in val]
     return _res
@@ -523,7 +523,7 @@ class IDAClaimsRequest(ClaimsRequest):
         super(IDAClaimsRequest, self).verify(**kwargs)
         _vc = self.get("verified_claims")
         if _vc:
-            _vci = VerifiedClaimsRequest(**_vc)
+            _vci = VerifiedClaimsRequest().from_dict(_vc)
             _vci.verify()
             self["verified_claims"] = _vci
 
-- 
2.43.0


From cc2f96e2d7f8c90efd699763acbb0e894b93a5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:57 +0000
Subject: [PATCH 57/61] fix: JSON text that is not an object was accepted for
 parameters that are objects

---
 src/oidcmsg/message.py       | 5 ++++-
 src/oidcmsg/oidc/__init__.py | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 36e9788..25a873f 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -910,7 +910,10 @@ def json_serializer(obj, sformat="urlencoded", lev=0):
 
 
 def json_deserializer(txt, sformat="urlencoded"):
-    return json.loads(txt)
+    val = json.loads(txt)
+    if not isinstance(val, dict):
+        raise ValueError("Not a JSON object: %s" % txt)
+    return val
 
 
 def msg_deser(val, sformat="urlencoded"):
diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 903a6fd..cc71c77 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -38,6 +38,7 @@ from oidcmsg.message import SINGLE_OPTIONAL_JSON
 from oidcmsg.message import SINGLE_OPTIONAL_STRING
 from oidcmsg.message import SINGLE_REQUIRED_STRING
 from oidcmsg.message import Message
+from oidcmsg.message import json_deserializer
 from oidcmsg.message import msg_ser
 from oidcmsg.oauth2 import ResponseMessage
 from oidcmsg.time_util import utc_time_sans_frac
@@ -217,7 +218,7 @@ SINGLE_OPTIONAL_REGISTRATION_REQUEST = (Message, False, msg_ser,
 SINGLE_OPTIONAL_CLAIMSREQ = (Message, False, msg_ser_json, claims_request_deser,
                              False)
 
-SINGLE_OPTIONAL_DICT = (dict, False, msg_ser_json, dict_deser, False)
+SINGLE_OPTIONAL_DICT = (dict, False, msg_ser_json, json_deserializer, False)
 
 # ----------------------------------------------------------------------------
 
-- 
2.43.0


From 3c5e577f739a43062f419603e25e16ec9ce79d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:57 +0000
Subject: [PATCH 58/61] fix: all but the first of the values of a repeated list
 parameter were lost

---
 src/oidcmsg/message.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 25a873f..11f324c 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -219,6 +219,8 @@ class Message(MutableMapping):
             if isinstance(typ, list):
                 if _deser:
                     self._dict[key] = _deser(val[0], "urlencoded")
+                    for item in val[1:]:  # given more than once
+                        self._dict[key].extend(_deser(item, "urlencoded"))
                 else:
                     self._dict[key] = val
             else:  # must be single value
-- 
2.43.0


From d6c440fb16f30d1df192b010d80ca1d473005d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:57 +0000
Subject: [PATCH 59/61] fix: a nested message in form-encoded input was refused
 or torn apart

---
 src/oidcmsg/message.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 11f324c..4b7dd36 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -225,7 +225,11 @@ class Message(MutableMapping):
                     self._dict[key] = val
             else:  # must be single value
                 if len(val) == 1:
-                    if _deser:
+                    if _deser and val[0].startswith("{") and isinstance(typ, type) and issubclass(
+                            typ, Message):
+                        # how to_urlencoded represents a nested message
+                        self._dict[key] = _deser(val[0], "json")
+                    elif _deser:
                         self._dict[key] = _deser(val[0], "urlencoded")
                     elif isinstance(val[0], typ):
                         self._dict[key] = val[0]
-- 
2.43.0


From df296dc4b13897347575ea714e77f381198bb95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:40 +0000
Subject: [PATCH 60/61] fix: a list starting with null was dropped, together
 with the values after it

---
 src/oidcmsg/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 4b7dd36..10ebae2 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -340,7 +340,7 @@ class Message(MutableMapping):
         """
 
         if isinstance(val, list):
-            if (len(val) == 0 or val[0] is None) and null_allowed is False:
+            if (len(val) == 0 or val == [None]) and null_allowed is False:
                 return
 
         if isinstance(vtyp, tuple):
-- 
2.43.0


From 4bdefaa8adc2bef4a5f041cd0fcc515673df86b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:06 +0000
Subject: [PATCH 61/61] fix: a listing does not show an outdated value of a key
 that is removed and written again meanwhile

---
 src/oidcmsg/storage/abfile.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 87d9833..bd7ee8c 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -264,11 +264,8 @@ class AbstractFileSystem(Storage):
             # raise ValueError('No such directory: {}'.format(self.fdir))
         _files = os.listdir(self.fdir)
 
-        # Someone else might have removed files
-        for f in set(self.storage.keys()).difference(_files):
-            if not os.path.isfile(os.path.join(self.fdir, f)):
-                self.storage.pop(f, None)
-                self.fmtime.pop(f, None)
+        # Someone else might have removed files, and what was not there a moment ago may be back
+        _files.extend(set(self.storage.keys()).difference(_files))
 
         for f in _files:
             fname = os.path.join(self.fdir, f)
@@ -280,7 +277,7 @@ class AbstractFileSystem(Storage):
             if fname.endswith('.lock'):
                 continue
 
-            if f in self.fmtime:
+            if f in self.fmtime and f in self.storage:
                 try:
                     if self.is_changed(f):
                         self._read_info(f)
@@ -292,6 +289,9 @@ class AbstractFileSystem(Storage):
                     self._read_info(f)
                 except Exception as err:
                     logger.warning('Bad content in {} ({})'.format(fname, err))
+                    # what it was once
+                    self.storage.pop(f, None)
+                    self.fmtime.pop(f, None)
 
     def items(self):
         """
-- 
2.43.0

