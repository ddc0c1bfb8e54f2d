From 171bb0c4322228a95a5f1f76580dfa6dbf228db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:27 +0000
Subject: [PATCH 01/45] fix: COSE_Sign Sig_structure always carries the
 signer's protected header

---
 pycose/messages/signer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pycose/messages/signer.py b/pycose/messages/signer.py
index a186388..540b410 100644
--- a/pycose/messages/signer.py
+++ b/pycose/messages/signer.py
@@ -50,12 +50,12 @@ class CoseSignature(SignCommon):
         self._payload = value
 
     def _create_sig_structure(self, detached_payload: Optional[bytes] = None):
-        sign_structure = [self._parent.context, self._parent.phdr_encoded]
-
-        if len(self.phdr):
-            sign_structure.append(self.phdr_encoded)
-
-        sign_structure.append(self.external_aad)
+        # RFC 8152 section 4.4: an empty protected header is a zero-length bstr; both fields are always present
+        sign_structure = [
+            self._parent.context,
+            self._parent.phdr_encoded if len(self._parent.phdr) else b'',
+            self.phdr_encoded if len(self.phdr) else b'',
+            self.external_aad]
 
         if detached_payload is None:
             if self._parent.payload is None:
-- 
2.43.0


From 0c3b00fdd9ab12e5b6c9443fe612f2a8a435f75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:32 +0000
Subject: [PATCH 02/45] fix: KDF contexts no longer share one default PartyInfo
 object

---
 pycose/messages/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/context.py b/pycose/messages/context.py
index d21e4b4..88daa36 100644
--- a/pycose/messages/context.py
+++ b/pycose/messages/context.py
@@ -64,8 +64,8 @@ class SuppPubInfo:
 class CoseKDFContext:
     algorithm: '_EncAlg' = attr.ib()
     supp_pub_info: SuppPubInfo = attr.ib()
-    party_u_info: PartyInfo = attr.ib(default=PartyInfo())
-    party_v_info: PartyInfo = attr.ib(default=PartyInfo())
+    party_u_info: PartyInfo = attr.ib(factory=PartyInfo)
+    party_v_info: PartyInfo = attr.ib(factory=PartyInfo)
     supp_priv_info: bytes = attr.ib(default=b'')
 
     def encode(self) -> CBOR:
-- 
2.43.0


From 7fee9d80ef6a6f7373bc4cc2e51820ee13f06d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:37 +0000
Subject: [PATCH 03/45] fix: COSE_Mac messages with key wrap or key agreement
 recipients can be created

---
 pycose/algorithms.py          | 5 +++++
 pycose/messages/macmessage.py | 6 ++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 8a2b4c0..d11cca8 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -237,6 +237,11 @@ class _HMAC(CoseAlgorithm, ABC):
     def get_digest_length(cls) -> int:
         raise NotImplementedError()
 
+    @classmethod
+    def get_key_length(cls) -> int:
+        # RFC 8152 section 9.1: the key has the size of the underlying hash function
+        return cls.get_hash_func().digest_size
+
     @classmethod
     @abstractmethod
     def get_hash_func(cls) -> HashAlgorithm:
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index 94befe8..e2eedd7 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -15,12 +15,14 @@ from typing import Optional, List, TYPE_CHECKING
 from pycose import utils, headers
 from pycose.exceptions import CoseException
 from pycose.keys.keyops import MacCreateOp
+from pycose.keys.keyparam import KpAlg, KpKeyOps
+from pycose.keys.symmetric import SymmetricKey
 from pycose.messages import cosemessage, maccommon
 from pycose.messages.recipient import CoseRecipient, DirectEncryption, DirectKeyAgreement, KeyWrap, \
     KeyAgreementWithKeyWrap
 
 if TYPE_CHECKING:
-    from pycose.keys.symmetric import SK, SymmetricKey
+    from pycose.keys.symmetric import SK
 
 CBOR = bytes
 
@@ -94,7 +96,7 @@ class MacMessage(maccommon.MacCommon):
                 else:
                     key_bytes = r.payload
                 r.encrypt(target_algorithm)
-            self.key = SymmetricKey(k=key_bytes, alg=target_algorithm, key_ops=[MacCreateOp])
+            self.key = SymmetricKey(k=key_bytes, optional_params={KpAlg: target_algorithm, KpKeyOps: [MacCreateOp]})
             payload = super(MacMessage, self).compute_tag()
 
         else:
-- 
2.43.0


From 57f0ac5e6e954da8329e8097a84a2a3d32c5b5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 04/45] fix: nonces built from a Partial IV keep the full
 length of the base IV

---
 pycose/messages/enccommon.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pycose/messages/enccommon.py b/pycose/messages/enccommon.py
index f399270..b020d9f 100644
--- a/pycose/messages/enccommon.py
+++ b/pycose/messages/enccommon.py
@@ -81,12 +81,17 @@ class EncCommon(CoseMessage, metaclass=abc.ABCMeta):
     def _get_nonce(self):
         nonce = self.get_attr(headers.IV)
 
-        if nonce is None and self.key.base_iv != b'':
+        if nonce is None:
             partial_iv = self.get_attr(headers.PartialIV)
-            nonce = int.from_bytes(partial_iv, "big") ^ int.from_bytes(self.key.base_iv, "big")
-            nonce = nonce.to_bytes((nonce.bit_length() + 7) // 8, byteorder="big")
 
-        if nonce is None and self.key.base_iv == b'':
-            raise CoseException('No IV found')
+            if self.key is None or self.key.base_iv == b'' or partial_iv is None:
+                raise CoseException('No IV found')
+
+            # RFC 8152 section 3.1: left-pad the Partial IV with zeros to the length of the (full-length) context IV
+            base_iv = self.key.base_iv
+            if len(partial_iv) > len(base_iv):
+                raise CoseException('Partial IV is longer than the base IV')
+            nonce = int.from_bytes(partial_iv, "big") ^ int.from_bytes(base_iv, "big")
+            nonce = nonce.to_bytes(len(base_iv), byteorder="big")
 
         return nonce
-- 
2.43.0


From fb5dae5259d81448a6a3a08499bcad02cfc2a564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:46 +0000
Subject: [PATCH 05/45] fix: a failed ephemeral key setup does not leave a
 private key without its header behind

---
 pycose/messages/recipient.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 69ab52a..71af66e 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -171,18 +171,19 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         return CoseKDFContext(algorithm, supp_pub, u, v, supp_priv)
 
     def _setup_ephemeral_key(self, peer_key, optional_params: dict = None):
-        self.key = EC2Key.generate_key(peer_key.crv, optional_params)
-
         if self.get_attr(headers.EphemeralKey) is not None:
-            # public key was already set in the header bucket but we just generated a new ephemeral key.
+            # a public key was already set in the header bucket, it cannot belong to a newly generated ephemeral key.
             raise CoseException('Unrelated ephemeral public key found in COSE message header')
-        else:
-            # strip private bytes from key
-            ephemeral_public_key = dict(self.key)
-            del ephemeral_public_key[EC2KpD]
 
-            # add to unprotected header
-            self.uhdr_update({headers.EphemeralKey: ephemeral_public_key})
+        key = EC2Key.generate_key(peer_key.crv, optional_params)
+
+        # strip private bytes from key
+        ephemeral_public_key = dict(key)
+        del ephemeral_public_key[EC2KpD]
+
+        # add to unprotected header
+        self.uhdr_update({headers.EphemeralKey: ephemeral_public_key})
+        self.key = key
 
 
 @CoseRecipient.record_rc([Direct, DirectHKDFSHA256, DirectHKDFAES256])
-- 
2.43.0


From 811fcd6fe45882e9c76a0d7509aff3e9f9a4e1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 06/45] fix: direct key agreement generates the missing
 ephemeral key before deriving the CEK

---
 pycose/messages/recipient.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 71af66e..873411f 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -453,6 +453,13 @@ class DirectKeyAgreement(CoseRecipient):
         if peer_key is None:
             raise CoseException("Unknown static receiver public key")
 
+        # the sender's ephemeral key pair must exist before the CEK can be derived
+        if self.key is None and ops == "encrypt" and alg in {EcdhEsHKDF256, EcdhEsHKDF512}:
+            self._setup_ephemeral_key(peer_key)
+
+        if self.key is None:
+            raise CoseException("Key cannot be None")
+
         peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
         self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
 
-- 
2.43.0


From 0ae31d5d0ff5a26fe9d97793389b12140a54ba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:59 +0000
Subject: [PATCH 07/45] fix: the KDF context carries the recipient's protected
 header as it is sent

---
 pycose/messages/context.py   | 10 +++++++---
 pycose/messages/recipient.py |  5 ++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/pycose/messages/context.py b/pycose/messages/context.py
index 88daa36..4eef3d7 100644
--- a/pycose/messages/context.py
+++ b/pycose/messages/context.py
@@ -1,4 +1,4 @@
-from typing import TYPE_CHECKING, Optional
+from typing import TYPE_CHECKING, Optional, Union
 
 import attr
 import cbor2
@@ -24,7 +24,7 @@ class PartyInfo:
 @attr.s(slots=True)
 class SuppPubInfo:
     _key_data_length: int = attr.ib()
-    protected: dict = attr.ib(factory=dict)
+    protected: Union[bytes, dict] = attr.ib(default=b'')
     other: bytes = attr.ib(default=b'')
 
     @property
@@ -49,7 +49,11 @@ class SuppPubInfo:
     def encode(self) -> list:
         """ Encodes the supplementary public information. """
 
-        info = [self.key_data_length * 8, cbor2.dumps(self.protected, default=self._custom_cbor_encoder)]
+        protected = self.protected
+        if not isinstance(protected, bytes):
+            protected = cbor2.dumps(protected, default=self._custom_cbor_encoder) if len(protected) else b''
+
+        info = [self.key_data_length * 8, protected]
         if self.other != b'':
             info.append(self.other)
 
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 873411f..243d638 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -165,7 +165,10 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         v_other = self.get_attr(headers.PartyVOther)
         v = PartyInfo(v_id, v_nonce, v_other)
 
-        supp_pub = SuppPubInfo(algorithm.get_key_length(), self.phdr, self.local_attrs.get(headers.SuppPubOther, b''))
+        # the protected bucket exactly as it is sent, a zero-length bstr if it has no elements
+        protected = self.phdr_encoded if len(self.phdr) else b''
+
+        supp_pub = SuppPubInfo(algorithm.get_key_length(), protected, self.local_attrs.get(headers.SuppPubOther, b''))
         supp_priv = self.local_attrs.get(headers.SuppPrivOther, b'')
 
         return CoseKDFContext(algorithm, supp_pub, u, v, supp_priv)
-- 
2.43.0


From b4108d14a141999142eea13f7fc684753959f0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 08/45] fix: the salt header parameter takes part in HKDF key
 derivation

---
 pycose/algorithms.py         | 5 +++--
 pycose/messages/recipient.py | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index d11cca8..e6e410a 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -306,10 +306,11 @@ class _EcdhHkdf(CoseAlgorithm, ABC):
         return shared_key
 
     @classmethod
-    def derive_kek(cls, curve: 'CoseCurve', private_key: 'EC2', public_key: 'EC2', context: 'CoseKDFContext') -> bytes:
+    def derive_kek(cls, curve: 'CoseCurve', private_key: 'EC2', public_key: 'EC2', context: 'CoseKDFContext',
+                   salt: Optional[bytes] = None) -> bytes:
         shared_secret = cls._ecdh(curve, private_key, public_key)
 
-        kdf = HKDF(algorithm=cls.get_hash_func(), length=context.supp_pub_info.key_data_length, salt=None,
+        kdf = HKDF(algorithm=cls.get_hash_func(), length=context.supp_pub_info.key_data_length, salt=salt,
                    info=context.encode(),
                    backend=default_backend())
         return kdf.derive(shared_secret)
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 243d638..b17b271 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -437,7 +437,8 @@ class DirectKeyAgreement(CoseRecipient):
 
     def _compute_kek(self, target_alg: '_EncAlg', peer_key: 'EC2Key', local_key: 'EC2Key', kex_alg) -> bytes:
 
-        return kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg))
+        return kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg),
+                                  self.get_attr(headers.Salt))
 
     def compute_cek(self, target_alg: '_EncAlg', ops: str) -> 'SK':
         alg = self.get_attr(headers.Algorithm)
@@ -527,7 +528,8 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
 
     def _compute_kek(self, target_alg: '_EncAlg', peer_key: 'EC2Key', local_key: 'EC2Key', kex_alg) -> bytes:
 
-        key_bytes = kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg))
+        key_bytes = kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg),
+                                       self.get_attr(headers.Salt))
         return key_bytes
 
     def encrypt(self, target_alg) -> bytes:
-- 
2.43.0


From 5006f94fbe6c87e1c73deb9fdb44e9b9bf48f0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 09/45] fix: every recipient of a message is given the same
 content key

---
 pycose/messages/encmessage.py | 11 ++++++-----
 pycose/messages/macmessage.py | 10 +++++-----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index cc43e07..c22cb75 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -86,12 +86,13 @@ class EncMessage(enccommon.EncCommon):
             payload = super(EncMessage, self).encrypt()
 
         elif KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
-            key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())
+            # all recipients get the same content key: the one already given to a recipient, or else a fresh one
+            key_bytes = next((r.payload for r in self.recipients if r.payload != b''), None)
+            if key_bytes is None:
+                key_bytes = os.urandom(target_algorithm.get_key_length())
+
             for r in self.recipients:
-                if r.payload == b'':
-                    r.payload = key_bytes
-                else:
-                    key_bytes = r.payload
+                r.payload = key_bytes
                 r.encrypt(target_algorithm)
             self.key = SymmetricKey(k=key_bytes, optional_params={KpAlg: target_algorithm, KpKeyOps: [EncryptOp]})
             payload = super(EncMessage, self).encrypt()
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index e2eedd7..2e815b6 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -88,13 +88,13 @@ class MacMessage(maccommon.MacCommon):
             payload = super(MacMessage, self).compute_tag()
 
         elif KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
-            key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())
+            # all recipients get the same content key: the one already given to a recipient, or else a fresh one
+            key_bytes = next((r.payload for r in self.recipients if r.payload != b''), None)
+            if key_bytes is None:
+                key_bytes = os.urandom(target_algorithm.get_key_length())
 
             for r in self.recipients:
-                if r.payload == b'':
-                    r.payload = key_bytes
-                else:
-                    key_bytes = r.payload
+                r.payload = key_bytes
                 r.encrypt(target_algorithm)
             self.key = SymmetricKey(k=key_bytes, optional_params={KpAlg: target_algorithm, KpKeyOps: [MacCreateOp]})
             payload = super(MacMessage, self).compute_tag()
-- 
2.43.0


From 0c91bc81cd9e4f382452e91e2ad02a3aab82881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 10/45] fix: the wrapped key of a received recipient is never
 used as a content key or wrapped again

---
 pycose/messages/encmessage.py |  2 +-
 pycose/messages/macmessage.py |  2 +-
 pycose/messages/recipient.py  | 24 +++++++++++++++++++++---
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index c22cb75..ad9726c 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -87,7 +87,7 @@ class EncMessage(enccommon.EncCommon):
 
         elif KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
             # all recipients get the same content key: the one already given to a recipient, or else a fresh one
-            key_bytes = next((r.payload for r in self.recipients if r.payload != b''), None)
+            key_bytes = next((r.payload for r in self.recipients if r.payload != b'' and not r.has_wrapped_cek), None)
             if key_bytes is None:
                 key_bytes = os.urandom(target_algorithm.get_key_length())
 
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index 2e815b6..f1bc8c1 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -89,7 +89,7 @@ class MacMessage(maccommon.MacCommon):
 
         elif KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
             # all recipients get the same content key: the one already given to a recipient, or else a fresh one
-            key_bytes = next((r.payload for r in self.recipients if r.payload != b''), None)
+            key_bytes = next((r.payload for r in self.recipients if r.payload != b'' and not r.has_wrapped_cek), None)
             if key_bytes is None:
                 key_bytes = os.urandom(target_algorithm.get_key_length())
 
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index b17b271..67a8582 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -125,6 +125,7 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         super().__init__(phdr, uhdr, payload, external_aad, key, *args, **kwargs)
 
         self._context = ''
+        self._wrapped_cek = None
         self._recipients = []
         self.recipients = recipients
 
@@ -132,6 +133,12 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
     def cbor_tag(self):
         return None
 
+    @property
+    def has_wrapped_cek(self) -> bool:
+        """ True for a received recipient structure: its payload is a wrapped CEK, not a CEK that is to be wrapped. """
+
+        return self._wrapped_cek is not None and self.payload == self._wrapped_cek
+
     @property
     def recipients(self) -> List['Recipient']:
         return self._recipients
@@ -264,6 +271,7 @@ class KeyWrap(CoseRecipient):
 
         if msg.payload == b'':
             raise CoseMalformedMessage(f'Recipient class KEY_WRAP must carry the encrypted CEK in its payload')
+        msg._wrapped_cek = msg.payload
 
         msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient') for r in
                           msg.recipients]
@@ -280,7 +288,12 @@ class KeyWrap(CoseRecipient):
 
     def encode(self, *args, **kwargs) -> list:
 
-        recipient = [self.phdr_encoded, self.uhdr_encoded, self.encrypt(kwargs.get('target_alg'))]
+        if self.has_wrapped_cek:
+            ciphertext = self.payload
+        else:
+            ciphertext = self.encrypt(kwargs.get('target_alg'))
+
+        recipient = [self.phdr_encoded, self.uhdr_encoded, ciphertext]
 
         if len(self.recipients):
             recipient.append([r.encode(*args, **kwargs) for r in self.recipients])
@@ -492,6 +505,7 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
         if msg.payload == b'':
             raise CoseMalformedMessage(
                 f'Recipient class KEY_AGREEMENT_WITH_KEY_WRAP must carry the encrypted CEK in its payload')
+        msg._wrapped_cek = msg.payload
 
         msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient') for r in
                           msg.recipients]
@@ -518,8 +532,12 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
 
     def encode(self, *args, **kwargs) -> list:
 
-        recipient = [self.phdr_encoded, self.uhdr_encoded,
-                     self.encrypt((self.get_attr(headers.Algorithm)).get_key_wrap_func())]
+        if self.has_wrapped_cek:
+            ciphertext = self.payload
+        else:
+            ciphertext = self.encrypt((self.get_attr(headers.Algorithm)).get_key_wrap_func())
+
+        recipient = [self.phdr_encoded, self.uhdr_encoded, ciphertext]
 
         if len(self.recipients):
             recipient.append([r.encode(*args, **kwargs) for r in self.recipients])
-- 
2.43.0


From e6df196f4a7eb68e7ff4371f2bd97e4ae8c88932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 11/45] fix: decoding a message with a malformed recipient
 fails instead of dropping all its recipients

---
 pycose/messages/encmessage.py | 5 ++---
 pycose/messages/macmessage.py | 4 +---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index ad9726c..195ecc3 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -26,11 +26,10 @@ class EncMessage(enccommon.EncCommon):
     def from_cose_obj(cls, cose_obj: list, allow_unknown_attributes: bool) -> 'EncMessage':
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
 
-        try:
+        if len(cose_obj):
             msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Enc_Recipient') for r
                               in cose_obj.pop(0)]
-        except (IndexError, ValueError):
-            msg.recipients = []
+
         return msg
 
     def __init__(self,
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index f1bc8c1..52e50f6 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -37,11 +37,9 @@ class MacMessage(maccommon.MacCommon):
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
         msg.auth_tag = cose_obj.pop(0)
 
-        try:
+        if len(cose_obj):
             msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Mac_Recipient') for r
                               in cose_obj.pop(0)]
-        except (IndexError, ValueError):
-            msg.recipients = None
 
         return msg
 
-- 
2.43.0


From 8ce2a7314199f3a89e84f39cf7514bab81bd1932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 12/45] fix: recipients of recipients are decoded instead of
 being dropped

---
 pycose/messages/recipient.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 67a8582..d41db32 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -76,17 +76,22 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
             raise CoseException("No algorithm specified in recipient structure")
 
     @classmethod
-    def has_recipient(cls, target: 'Recipient', recipients: List['Recipient']):
-        found = False
+    def from_cose_obj(cls, cose_obj: list, allow_unknown_attributes: bool, *args, **kwargs) -> 'CoseRecipient':
+        msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
+
+        if len(cose_obj):
+            msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient') for r
+                              in cose_obj.pop(0)]
+
+        return msg
 
+    @classmethod
+    def has_recipient(cls, target: 'Recipient', recipients: List['Recipient']):
         for r in recipients:
-            if target is r:
+            if target is r or cls.has_recipient(target, r.recipients):
                 return True
-            else:
-                if len(r.recipients):
-                    found = r.has_recipient(target, r.recipients)
 
-        return found
+        return False
 
     @classmethod
     def verify_recipients(cls, recipients: List['Recipient']) -> set:
@@ -273,9 +278,6 @@ class KeyWrap(CoseRecipient):
             raise CoseMalformedMessage(f'Recipient class KEY_WRAP must carry the encrypted CEK in its payload')
         msg._wrapped_cek = msg.payload
 
-        msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient') for r in
-                          msg.recipients]
-
         return msg
 
     @property
@@ -507,9 +509,6 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
                 f'Recipient class KEY_AGREEMENT_WITH_KEY_WRAP must carry the encrypted CEK in its payload')
         msg._wrapped_cek = msg.payload
 
-        msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient') for r in
-                          msg.recipients]
-
         return msg
 
     @property
-- 
2.43.0


From a1318d74d1c2ae47801d59bd321fbbfb687c5754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 13/45] fix: assigning a message's recipients replaces them,
 all or nothing

---
 pycose/messages/encmessage.py | 13 +++++++------
 pycose/messages/recipient.py  | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index 195ecc3..e6bc3fa 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -130,12 +130,13 @@ class EncMessage(enccommon.EncCommon):
     def recipients(self, recipients: List['Recipient']) -> None:
 
         if recipients is None:
-            self._recipients = []
-        else:
-            for r in recipients:
-                if not issubclass(type(r), CoseRecipient):
-                    raise TypeError(f"Recipient must be a subclass of {CoseRecipient}")
-                self._recipients.append(r)
+            recipients = []
+
+        for r in recipients:
+            if not issubclass(type(r), CoseRecipient):
+                raise TypeError(f"Recipient must be a subclass of {CoseRecipient}")
+
+        self._recipients = list(recipients)
 
     def __repr__(self) -> str:
         phdr, uhdr = self._hdr_repr()
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index d41db32..65990a3 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -152,12 +152,13 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
     def recipients(self, recipients: List['Recipient']) -> None:
 
         if recipients is None:
-            self._recipients = []
-        else:
-            for r in recipients:
-                if not issubclass(type(r), CoseRecipient):
-                    raise TypeError(f"Recipient must be a subclass of {CoseRecipient}")
-                self._recipients.append(r)
+            recipients = []
+
+        for r in recipients:
+            if not issubclass(type(r), CoseRecipient):
+                raise TypeError(f"Recipient must be a subclass of {CoseRecipient}")
+
+        self._recipients = list(recipients)
 
     def get_kdf_context(self, algorithm: '_EncAlg') -> 'CoseKDFContext':
         """
-- 
2.43.0


From 91d7bd254defd7ad0fec1148e7df8956fa00a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:30 +0000
Subject: [PATCH 14/45] fix: COSE_Mac messages keep their own list of
 recipients

---
 pycose/messages/macmessage.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index 52e50f6..1e19ffd 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -102,6 +102,21 @@ class MacMessage(maccommon.MacCommon):
 
         return payload
 
+    @property
+    def recipients(self) -> List[CoseRecipient]:
+        return self._recipients
+
+    @recipients.setter
+    def recipients(self, recipients: Optional[List[CoseRecipient]]) -> None:
+        if recipients is None:
+            recipients = []
+
+        for r in recipients:
+            if not issubclass(type(r), CoseRecipient):
+                raise TypeError(f"Recipient must be a subclass of {CoseRecipient}")
+
+        self._recipients = list(recipients)
+
     def __repr__(self) -> str:
         phdr, uhdr = self._hdr_repr()
 
-- 
2.43.0


From 948b8895948abc9e3c4ea2edf845d5d16e11ea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:35 +0000
Subject: [PATCH 15/45] fix: COSE_Sign messages do not share their list of
 signers or lose signers to other messages

---
 pycose/messages/signmessage.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycose/messages/signmessage.py b/pycose/messages/signmessage.py
index e35df1e..2cc2814 100644
--- a/pycose/messages/signmessage.py
+++ b/pycose/messages/signmessage.py
@@ -67,7 +67,7 @@ class _SignMessage(CoseMessage, metaclass=abc.ABCMeta):
         if isinstance(signers, list):
             for s in signers:
                 s._parent = self
-            self._signers = signers
+            self._signers = list(signers)
         else:
             raise CoseException("Signers must be of type list")
 
@@ -76,6 +76,10 @@ class _SignMessage(CoseMessage, metaclass=abc.ABCMeta):
 
         message = [self.phdr_encoded, self.uhdr_encoded, self.payload]
 
+        # a signer that was meanwhile given to another message still signs for this one
+        for s in self.signers:
+            s._parent = self
+
         if len(self.signers):
             message.append([s.encode(detached_payload) for s in self.signers])
 
-- 
2.43.0


From 9539f5eefa0802a631d18f3867b3eb980c0ed49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:40 +0000
Subject: [PATCH 16/45] fix: encoding a received MAC message without
 recomputing the tag keeps its tag

---
 pycose/messages/mac0message.py | 2 ++
 pycose/messages/macmessage.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pycose/messages/mac0message.py b/pycose/messages/mac0message.py
index 383c6cd..9789346 100644
--- a/pycose/messages/mac0message.py
+++ b/pycose/messages/mac0message.py
@@ -44,6 +44,8 @@ class Mac0Message(maccommon.MacCommon):
 
         if mac:
             message = [self.phdr_encoded, self.uhdr_encoded, self.payload, self.compute_tag()]
+        elif self.auth_tag:
+            message = [self.phdr_encoded, self.uhdr_encoded, self.payload, self.auth_tag]
         else:
             message = [self.phdr_encoded, self.uhdr_encoded, self.payload]
 
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index 1e19ffd..f21221d 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -63,6 +63,8 @@ class MacMessage(maccommon.MacCommon):
 
         if mac:
             message = [self.phdr_encoded, self.uhdr_encoded, self.payload, self.compute_tag()]
+        elif self.auth_tag:
+            message = [self.phdr_encoded, self.uhdr_encoded, self.payload, self.auth_tag]
         else:
             message = [self.phdr_encoded, self.uhdr_encoded, self.payload]
 
-- 
2.43.0


From 4b6f1defaa71a6e3dace4e8f5e83da63bdefe388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 17/45] fix: assigning key operations takes effect for an empty
 list and not at all for an invalid one

---
 pycose/keys/ec2.py       | 4 ++--
 pycose/keys/okp.py       | 4 ++--
 pycose/keys/rsa.py       | 4 ++--
 pycose/keys/symmetric.py | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 57fcd4c..27ffa42 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -253,8 +253,8 @@ class EC2Key(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {EC2Key.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, crv: Union[Type['CoseCurve'], str, int], optional_params: dict = None) -> 'EC2Key':
diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 7950ef0..186d9fe 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -218,8 +218,8 @@ class OKPKey(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {OKPKey.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, crv: Union[Type['CoseCurve'], str, int], optional_params: dict = None) -> 'OKPKey':
diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index c2d7b45..2420927 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -296,8 +296,8 @@ class RSAKey(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {RSAKey.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, key_bits: int, optional_params: dict = None) -> 'RSAKey':
diff --git a/pycose/keys/symmetric.py b/pycose/keys/symmetric.py
index a66fdae..31683d4 100644
--- a/pycose/keys/symmetric.py
+++ b/pycose/keys/symmetric.py
@@ -104,8 +104,8 @@ class SymmetricKey(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {SymmetricKey.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, key_len: int, optional_params: dict = None) -> 'SymmetricKey':
-- 
2.43.0


From 82fb6a9f19585ff8ff68a5e768586417aec2d45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:14 +0000
Subject: [PATCH 18/45] fix: AES key wrap respects the restrictions of the
 key-encryption key

---
 pycose/messages/recipient.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 65990a3..e1eb562 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -356,9 +356,10 @@ class KeyWrap(CoseRecipient):
 
         elif alg in {A128KW, A192KW, A256KW}:
             key_ops = [WrapOp, EncryptOp]
+            if self.key is not None:
+                self.key.verify(SymmetricKey, alg, key_ops)
             kek = SymmetricKey(k=self._compute_kek(target_alg, ops='encrypt'),
                                optional_params={KpAlg: alg, KpKeyOps: key_ops})
-            kek.verify(SymmetricKey, alg, [WrapOp, EncryptOp])
         elif alg in {RsaesOaepSha512, RsaesOaepSha256, RsaesOaepSha1}:
             kek = self.key
             kek.verify(RSAKey, alg, [WrapOp, EncryptOp])
@@ -373,9 +374,10 @@ class KeyWrap(CoseRecipient):
         key_ops = [DecryptOp, UnwrapOp]
 
         if alg in {A128KW, A192KW, A256KW}:
+            if self.key is not None:
+                self.key.verify(SymmetricKey, alg, key_ops)
             kek = SymmetricKey(k=self._compute_kek(target_alg, 'decrypt'),
                                optional_params={KpAlg: alg, KpKeyOps: key_ops})
-            kek.verify(SymmetricKey, alg, [UnwrapOp, DecryptOp])
         elif alg in {RsaesOaepSha512, RsaesOaepSha256, RsaesOaepSha1}:
             kek = self.key
             kek.verify(RSAKey, alg, [UnwrapOp, DecryptOp])
-- 
2.43.0


From c0ba0b23cc5b59de61298e83742af773921b7c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 19/45] fix: key agreement with key wrap respects the
 restrictions of the agreement keys

---
 pycose/messages/recipient.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index e1eb562..0efc8f7 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -573,6 +573,9 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
                 # alg uses a static sender
                 raise CoseException("Static sender key cannot be None.")
 
+        peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+        self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+
         key_bytes = self._compute_kek((self.get_attr(headers.Algorithm)).get_key_wrap_func(), peer_key, self.key, alg)
         wrap_func = alg.get_key_wrap_func()
 
@@ -590,11 +593,18 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
         else:
             raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for {self.__name__}")
 
+        if peer_key is None:
+            raise CoseException("Unknown sender public key")
+
+        if self.key is None:
+            raise CoseException("Key cannot be None")
+
+        peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+        self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+
         kek = SymmetricKey(k=self._compute_kek(alg.get_key_wrap_func(), peer_key, self.key, alg),
                            optional_params={KpAlg: alg, KpKeyOps: [UnwrapOp, DecryptOp]})
 
-        kek.verify(SymmetricKey, alg, [UnwrapOp, DecryptOp])
-
         return alg.get_key_wrap_func().key_unwrap(kek, self.payload)
 
     def __repr__(self) -> str:
-- 
2.43.0


From cfb94125b938a0aaf5e20e0308bf3afdc7ba3784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 20/45] fix: SHAKE digests can be computed

---
 pycose/algorithms.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index e6e410a..b705ae0 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -439,7 +439,10 @@ class Shake256(_HashAlg):
 
     identifier = -45
     fullname = "SHAKE-256"
-    hash_cls = SHAKE256
+
+    @classmethod
+    def get_hash_func(cls) -> HashAlgorithm:
+        return SHAKE256(digest_size=64)
 
 
 @CoseAlgorithm.register_attribute()
@@ -879,7 +882,10 @@ class Shake128(_HashAlg):
 
     identifier = -18
     fullname = "SHAKE-128"
-    hash_cls = SHAKE128
+
+    @classmethod
+    def get_hash_func(cls) -> HashAlgorithm:
+        return SHAKE128(digest_size=32)
 
 
 @CoseAlgorithm.register_attribute()
-- 
2.43.0


From a4c84fe19f92c847c65c08e00af92dffcf884b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:27 +0000
Subject: [PATCH 21/45] fix: a chain of a single certificate can be verified

---
 pycose/extensions/x509.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycose/extensions/x509.py b/pycose/extensions/x509.py
index 5c1aacb..cdc06c6 100644
--- a/pycose/extensions/x509.py
+++ b/pycose/extensions/x509.py
@@ -74,9 +74,11 @@ class X5Chain:
             self.verify_chain({'digital_signature'})
 
     def verify_chain(self, key_usage: Set[str]):
+        # a chain of one certificate is stored as the certificate itself
+        cert_chain = self.cert_chain if isinstance(self.cert_chain, list) else [self.cert_chain]
         val = CertificateValidator(
-            end_entity_cert=self.cert_chain[0],
-            intermediate_certs=self.cert_chain[1:],
+            end_entity_cert=cert_chain[0],
+            intermediate_certs=cert_chain[1:],
         )
         return val.validate_usage(key_usage)
 
-- 
2.43.0


From 7755c9c821e7e04288ef44b70795d59dbad1f97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:44 +0000
Subject: [PATCH 22/45] fix: AES algorithms reject keys of another length than
 theirs

---
 pycose/algorithms.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index b705ae0..42315ba 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -65,7 +65,15 @@ class _HashAlg(CoseAlgorithm, ABC):
         return digest
 
 
-class _EncAlg(CoseAlgorithm, ABC):
+class _FixedKeyLength:
+    @classmethod
+    def _verify_key_length(cls, key: 'SK') -> None:
+        # RFC 8152 sections 9.2, 10.1 and 10.2: the key length must be the one of the algorithm
+        if cls.get_key_length() != len(key.k):
+            raise ValueError("Key has the wrong length")
+
+
+class _EncAlg(_FixedKeyLength, CoseAlgorithm, ABC):
     @classmethod
     @abstractmethod
     def get_key_length(cls) -> int:
@@ -197,7 +205,7 @@ class _Ecdsa(CoseAlgorithm, ABC):
             return False
 
 
-class _AesMac(CoseAlgorithm, ABC):
+class _AesMac(_FixedKeyLength, CoseAlgorithm, ABC):
     @classmethod
     @abstractmethod
     def get_digest_length(cls) -> int:
@@ -205,6 +213,7 @@ class _AesMac(CoseAlgorithm, ABC):
 
     @classmethod
     def compute_tag(cls, key: 'SK', data: bytes):
+        cls._verify_key_length(key)
         encryptor = Cipher(AES(key.k),
                            modes.CBC(unhexlify(b''.join([b'00'] * 16))),
                            backend=default_backend()).encryptor()
@@ -320,11 +329,13 @@ class _AesGcm(_EncAlg, ABC):
 
     @classmethod
     def encrypt(cls, key: 'SK', nonce: bytes, data: bytes, aad: bytes) -> bytes:
+        cls._verify_key_length(key)
         cipher = AESGCM(key=key.k)
         return cipher.encrypt(nonce=nonce, data=data, associated_data=aad)
 
     @classmethod
     def decrypt(cls, key: 'SK', nonce: bytes, ciphertext: bytes, aad: bytes) -> bytes:
+        cls._verify_key_length(key)
         cipher = AESGCM(key=key.k)
         return cipher.decrypt(nonce=nonce, data=ciphertext, associated_data=aad)
 
@@ -338,11 +349,13 @@ class _AesCcm(_EncAlg, ABC):
 
     @classmethod
     def encrypt(cls, key: 'SK', nonce: bytes, data: bytes, aad: bytes) -> bytes:
+        cls._verify_key_length(key)
         cipher = AESCCM(key.k, tag_length=cls.get_tag_length())
         return cipher.encrypt(nonce, data=data, associated_data=aad)
 
     @classmethod
     def decrypt(cls, key: 'SK', nonce: bytes, ciphertext: bytes, aad: bytes) -> bytes:
+        cls._verify_key_length(key)
         cipher = AESCCM(key=key.k, tag_length=cls.get_tag_length())
         return cipher.decrypt(nonce, data=ciphertext, associated_data=aad)
 
-- 
2.43.0


From 7d6b8fe82c122c7171a0dc3cf37394af5f3febcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:30 +0000
Subject: [PATCH 23/45] fix: assigning a key's type stores the key type

---
 pycose/keys/cosekey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index 119840b..3781eef 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -231,7 +231,7 @@ class CoseKey(MutableMapping, ABC):
 
     @kty.setter
     def kty(self, kty: Any):
-        self.store[KpKty] = KpKty.from_id(kty)
+        self.store[KpKty] = KpKty.value_parser(kty)
 
     @property
     def alg(self) -> Optional[Type['CoseAlg']]:
-- 
2.43.0


From 1e5ffa9087cbd99e039d692eecee806ec1cefe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:51 +0000
Subject: [PATCH 24/45] fix: values assigned to key parameters are parsed like
 those given to the constructor

---
 pycose/keys/cosekey.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index 3781eef..599a08c 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -209,7 +209,13 @@ class CoseKey(MutableMapping, ABC):
         return self.store[self._key_transform(key, allow_unknown_attrs=True)]
 
     def __setitem__(self, key, value):
-        self.store[self._key_transform(key, allow_unknown_attrs=True)] = value
+        kp = self._key_transform(key, allow_unknown_attrs=True)
+
+        # parse the value of the key attribute if possible
+        if hasattr(kp, 'value_parser') and hasattr(kp.value_parser, '__call__'):
+            value = kp.value_parser(value)
+
+        self.store[kp] = value
 
     def __delitem__(self, key):
         del self.store[self._key_transform(key, allow_unknown_attrs=True)]
-- 
2.43.0


From ca3be8edf619880581a3d9e7e179cba015cac6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:17 +0000
Subject: [PATCH 25/45] fix: key parameters the library does not know can be
 deleted from keys

---
 pycose/keys/ec2.py       | 10 ++++++----
 pycose/keys/okp.py       |  8 +++++---
 pycose/keys/symmetric.py |  4 +++-
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 27ffa42..00ac194 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -278,12 +278,14 @@ class EC2Key(CoseKey):
         return cls._from_cryptography_key(ext_key, optional_params)
 
     def __delitem__(self, key):
-        if self._key_transform(key) != KpKty and self._key_transform(key) != EC2KpCurve:
-            if self._key_transform(key) == EC2KpD and (EC2KpY not in self.store or EC2KpX not in self.store):
+        kp = self._key_transform(key, allow_unknown_attrs=True)
+
+        if kp != KpKty and kp != EC2KpCurve:
+            if kp == EC2KpD and (EC2KpY not in self.store or EC2KpX not in self.store):
                 pass
-            elif self._key_transform(key) == EC2KpX and EC2KpD not in self.store:
+            elif kp == EC2KpX and EC2KpD not in self.store:
                 pass
-            elif (self._key_transform(key) == EC2KpX or self._key_transform(key) == EC2KpY) and EC2KpD in self.store:
+            elif (kp == EC2KpX or kp == EC2KpY) and EC2KpD in self.store:
                 super(EC2Key, self).__delitem__(EC2KpX)
                 super(EC2Key, self).__delitem__(EC2KpY)
                 return
diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 186d9fe..1173d01 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -243,10 +243,12 @@ class OKPKey(CoseKey):
         return cls._from_cryptography_key(ext_key, optional_params)
 
     def __delitem__(self, key: Union['KeyParam', str, int]):
-        if self._key_transform(key) != KpKty and self._key_transform(key) != OKPKpCurve:
-            if self._key_transform(key) == OKPKpD and OKPKpX not in self.store:
+        kp = self._key_transform(key, allow_unknown_attrs=True)
+
+        if kp != KpKty and kp != OKPKpCurve:
+            if kp == OKPKpD and OKPKpX not in self.store:
                 pass
-            if self._key_transform(key) == OKPKpX and OKPKpD not in self.store:
+            if kp == OKPKpX and OKPKpD not in self.store:
                 pass
             else:
                 return super(OKPKey, self).__delitem__(key)
diff --git a/pycose/keys/symmetric.py b/pycose/keys/symmetric.py
index 31683d4..707bd04 100644
--- a/pycose/keys/symmetric.py
+++ b/pycose/keys/symmetric.py
@@ -71,7 +71,9 @@ class SymmetricKey(CoseKey):
             raise CoseInvalidKey("SymKpK parameter cannot be None")
 
     def __delitem__(self, key):
-        if self._key_transform(key) != KpKty and self._key_transform(key) != SymKpK:
+        kp = self._key_transform(key, allow_unknown_attrs=True)
+
+        if kp != KpKty and kp != SymKpK:
             super().__delitem__(key)
         else:
             raise CoseInvalidKey(f"Deleting {key} attribute would lead to an invalide COSE Symmetric Key")
-- 
2.43.0


From 166d09d8ea33705d6127fc0d1c7ce68615192a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:24 +0000
Subject: [PATCH 26/45] fix: the private part of an OKP key without public part
 cannot be deleted

---
 pycose/keys/okp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 1173d01..9461500 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -248,7 +248,7 @@ class OKPKey(CoseKey):
         if kp != KpKty and kp != OKPKpCurve:
             if kp == OKPKpD and OKPKpX not in self.store:
                 pass
-            if kp == OKPKpX and OKPKpD not in self.store:
+            elif kp == OKPKpX and OKPKpD not in self.store:
                 pass
             else:
                 return super(OKPKey, self).__delitem__(key)
-- 
2.43.0


From 684ab8c71955f157526d01b001056e7d7932de36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:32 +0000
Subject: [PATCH 27/45] fix: deleting a coordinate an EC2 key does not have
 leaves the other one alone

---
 pycose/keys/ec2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 00ac194..eda7e25 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -286,8 +286,10 @@ class EC2Key(CoseKey):
             elif kp == EC2KpX and EC2KpD not in self.store:
                 pass
             elif (kp == EC2KpX or kp == EC2KpY) and EC2KpD in self.store:
-                super(EC2Key, self).__delitem__(EC2KpX)
-                super(EC2Key, self).__delitem__(EC2KpY)
+                # raises before anything is removed if the coordinate is not there
+                super(EC2Key, self).__delitem__(kp)
+                self.store.pop(EC2KpX, None)
+                self.store.pop(EC2KpY, None)
                 return
             else:
                 return super(EC2Key, self).__delitem__(key)
-- 
2.43.0


From 14384c8757621ce89fe78062c7e15736daccef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:53 +0000
Subject: [PATCH 28/45] fix: the further primes of a multi-prime RSA key are
 part of the key

---
 pycose/keys/rsa.py | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index 2420927..37e2810 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -284,6 +284,46 @@ class RSAKey(CoseKey):
             raise TypeError("parameter dq must be of type 'bytes'")
         self.store[RSAKpQInv] = qinv
 
+    @property
+    def other(self) -> List[dict]:
+        return self.store.get(RSAKpOther, [])
+
+    @other.setter
+    def other(self, other: List[dict]):
+        if not isinstance(other, list):
+            raise TypeError("parameter other must be of type 'list'")
+        self.store[RSAKpOther] = other
+
+    @property
+    def r_i(self) -> bytes:
+        return self.store.get(RSAKpRi, b'')
+
+    @r_i.setter
+    def r_i(self, r_i: bytes):
+        if type(r_i) is not bytes:
+            raise TypeError("parameter r_i must be of type 'bytes'")
+        self.store[RSAKpRi] = r_i
+
+    @property
+    def d_i(self) -> bytes:
+        return self.store.get(RSAKpDi, b'')
+
+    @d_i.setter
+    def d_i(self, d_i: bytes):
+        if type(d_i) is not bytes:
+            raise TypeError("parameter d_i must be of type 'bytes'")
+        self.store[RSAKpDi] = d_i
+
+    @property
+    def t_i(self) -> bytes:
+        return self.store.get(RSAKpTi, b'')
+
+    @t_i.setter
+    def t_i(self, t_i: bytes):
+        if type(t_i) is not bytes:
+            raise TypeError("parameter t_i must be of type 'bytes'")
+        self.store[RSAKpTi] = t_i
+
     @property
     def key_ops(self) -> List[Type['KEYOPS']]:
         """ Returns the value of the :class:`~pycose.keys.keyparam.KpKeyOps` key parameter """
-- 
2.43.0


From dc4df21ea0068d23bd7be246fe8a1c60ed4ce4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:46 +0000
Subject: [PATCH 29/45] fix: EC2 keys with a compressed point get the y
 coordinate their sign bit selects

---
 pycose/keys/ec2.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index eda7e25..ef012f3 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -146,6 +146,11 @@ class EC2Key(CoseKey):
         if not d and not x:
             raise CoseInvalidKey("Missing public coordinate X")
 
+        if isinstance(y, bool):
+            # compressed point, see RFC 8152 section 13.1.1: y is the sign bit of the y coordinate
+            key = ec.EllipticCurvePublicKey.from_encoded_point(self.crv.curve_obj, (b'\x03' if y else b'\x02') + x)
+            y = key.public_numbers().y.to_bytes(self.crv.size, 'big')
+
         if d:
             public_nums = ec.derive_private_key(int.from_bytes(d, byteorder="big"),
                                                 curve=self.crv.curve_obj,
-- 
2.43.0


From a234f8f7a6c206b2c67fea9d71c5aa251915956a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:41 +0000
Subject: [PATCH 30/45] fix: text string labels of received headers are kept
 instead of being taken for registered labels

---
 pycose/messages/cosebase.py  | 13 ++++++++++---
 pycose/messages/recipient.py |  4 ++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index d5b5754..313c5b4 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -50,8 +50,8 @@ class CoseBase(metaclass=abc.ABCMeta):
         self.alg_tstr_encoding = kwargs.get("alg_tstr_encoding", False)
 
         self._phdr_encoded = phdr_encoded
-        self._phdr = CoseBase._parse_header(phdr, kwargs.get("allow_unknown_attributes", True))
-        self._uhdr = CoseBase._parse_header(uhdr, kwargs.get("allow_unknown_attributes", True))
+        self._phdr = CoseBase._parse_header(phdr, kwargs.get("allow_unknown_attributes", True), phdr_encoded is not None)
+        self._uhdr = CoseBase._parse_header(uhdr, kwargs.get("allow_unknown_attributes", True), phdr_encoded is not None)
 
         # can be plaintext or ciphertext
         if payload is not None and type(payload) is not bytes:
@@ -160,9 +160,16 @@ class CoseBase(metaclass=abc.ABCMeta):
             encoder.encode(cose_attribute.identifier)
 
     @classmethod
-    def _parse_header(cls, hdr, allow_unknown_attributes: bool) -> dict:
+    def _parse_header(cls, hdr, allow_unknown_attributes: bool, received: bool = False) -> dict:
         decoded_hdr = {}
         for k, v in hdr.items():
+            if received and isinstance(k, str):
+                # on the wire a text string is a label of its own, not another spelling of a registered one
+                if not allow_unknown_attributes:
+                    raise CoseException(f"Unknown COSE attribute with value: [{k}]")
+                decoded_hdr[k] = v
+                continue
+
             attr = CoseHeaderAttribute.from_id(k, allow_unknown_attributes)
 
             if hasattr(attr, 'value_parser'):
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 0efc8f7..bceb2b5 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -62,11 +62,11 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
     @classmethod
     def create_recipient(cls, recipient: list, allow_unknown_attributes: bool, context: str):
         if recipient[0] != b'':
-            p_alg = cls._parse_header(cbor2.loads(recipient[0]), allow_unknown_attributes).get(headers.Algorithm)
+            p_alg = cls._parse_header(cbor2.loads(recipient[0]), allow_unknown_attributes, True).get(headers.Algorithm)
         else:
             p_alg = None
 
-        u_alg = cls._parse_header(recipient[1], allow_unknown_attributes).get(headers.Algorithm)
+        u_alg = cls._parse_header(recipient[1], allow_unknown_attributes, True).get(headers.Algorithm)
 
         if p_alg is not None:
             return cls._RCPT_CLASSES[p_alg].from_cose_obj(recipient, allow_unknown_attributes, context=context)
-- 
2.43.0


From 5ee8af34254ad4333cd8c597898a3cc01bae67cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:46 +0000
Subject: [PATCH 31/45] fix: decoding with the class of one key type does not
 return keys of another

---
 pycose/keys/cosekey.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index 599a08c..c067716 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -36,7 +36,12 @@ class CoseKey(MutableMapping, ABC):
         :return: An initialized COSE key.
         """
 
-        return CoseKey.from_dict(cbor2.loads(received))
+        key = CoseKey.from_dict(cbor2.loads(received))
+
+        if not isinstance(key, cls):
+            raise CoseIllegalKeyType(f"Key type {key.kty} does not match the expected key type {cls.__name__}.")
+
+        return key
 
     @classmethod
     def record_kty(cls, kty: Type['KTYPE']) -> Callable:
-- 
2.43.0


From c3b4340f285798395a5f07ab6f3a759e550f3a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:28 +0000
Subject: [PATCH 32/45] fix: messages with elements their type does not have
 are rejected instead of losing them

---
 pycose/messages/cosemessage.py | 3 +++
 pycose/messages/recipient.py   | 9 +++++++--
 pycose/messages/signer.py      | 3 +++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/cosemessage.py b/pycose/messages/cosemessage.py
index 817d449..37edd95 100644
--- a/pycose/messages/cosemessage.py
+++ b/pycose/messages/cosemessage.py
@@ -66,6 +66,9 @@ class CoseMessage(CoseBase, metaclass=abc.ABCMeta):
             except KeyError as e:
                 raise KeyError("CBOR tag is not recognized", e)
 
+            if len(cose_obj):
+                raise TypeError("COSE message has more elements than its type allows")
+
             if not isinstance(decoded, cls):
                 raise TypeError(f"CBOR tag {cbor_tag} does not match the expected message type {cls.__name__}.")
 
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index bceb2b5..cc303af 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -69,12 +69,17 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         u_alg = cls._parse_header(recipient[1], allow_unknown_attributes, True).get(headers.Algorithm)
 
         if p_alg is not None:
-            return cls._RCPT_CLASSES[p_alg].from_cose_obj(recipient, allow_unknown_attributes, context=context)
+            rcpt = cls._RCPT_CLASSES[p_alg].from_cose_obj(recipient, allow_unknown_attributes, context=context)
         elif u_alg is not None:
-            return cls._RCPT_CLASSES[u_alg].from_cose_obj(recipient, allow_unknown_attributes, context=context)
+            rcpt = cls._RCPT_CLASSES[u_alg].from_cose_obj(recipient, allow_unknown_attributes, context=context)
         else:
             raise CoseException("No algorithm specified in recipient structure")
 
+        if len(recipient):
+            raise CoseMalformedMessage("Recipient structure has more elements than it may have")
+
+        return rcpt
+
     @classmethod
     def from_cose_obj(cls, cose_obj: list, allow_unknown_attributes: bool, *args, **kwargs) -> 'CoseRecipient':
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
diff --git a/pycose/messages/signer.py b/pycose/messages/signer.py
index 540b410..bcbb41b 100644
--- a/pycose/messages/signer.py
+++ b/pycose/messages/signer.py
@@ -19,6 +19,9 @@ class CoseSignature(SignCommon):
 
         msg: 'CoseSignature' = super().from_cose_obj(cose_obj, allow_unknown_attributes)
 
+        if len(cose_obj):
+            raise CoseException("COSE_Signature has more elements than it may have")
+
         return msg
 
     def __init__(self,
-- 
2.43.0


From 210de11cfba783258f36c0c92d964ccbc5697d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 33/45] fix: text string labels are kept in received messages
 whose protected header is null, too

---
 pycose/messages/cosebase.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index 313c5b4..8a4aae0 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -22,7 +22,7 @@ class CoseBase(metaclass=abc.ABCMeta):
         phdr_encoded = cose_obj.pop(0)
         uhdr = cose_obj.pop(0)
 
-        return cls(phdr_encoded=phdr_encoded, uhdr=uhdr, allow_unknown_attributes=allow_unknown_attributes)
+        return cls(phdr_encoded=phdr_encoded, uhdr=uhdr, allow_unknown_attributes=allow_unknown_attributes, received=True)
 
     def __init__(self, phdr: Optional[dict] = None, uhdr: Optional[dict] = None, payload: Optional[bytes] = None, phdr_encoded: Optional[bytes] = None, *args, **kwargs):
         if phdr is not None and phdr_encoded is not None:
@@ -50,8 +50,9 @@ class CoseBase(metaclass=abc.ABCMeta):
         self.alg_tstr_encoding = kwargs.get("alg_tstr_encoding", False)
 
         self._phdr_encoded = phdr_encoded
-        self._phdr = CoseBase._parse_header(phdr, kwargs.get("allow_unknown_attributes", True), phdr_encoded is not None)
-        self._uhdr = CoseBase._parse_header(uhdr, kwargs.get("allow_unknown_attributes", True), phdr_encoded is not None)
+        received = kwargs.get("received", phdr_encoded is not None)
+        self._phdr = CoseBase._parse_header(phdr, kwargs.get("allow_unknown_attributes", True), received)
+        self._uhdr = CoseBase._parse_header(uhdr, kwargs.get("allow_unknown_attributes", True), received)
 
         # can be plaintext or ciphertext
         if payload is not None and type(payload) is not bytes:
-- 
2.43.0


From e9668a54e87fff5978bcd6ad6d68c252e46e45b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:47 +0000
Subject: [PATCH 34/45] fix: received messages with a direct key agreement
 recipient can be encoded again without the sender's keys

---
 pycose/messages/recipient.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index cc303af..32744fb 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -136,6 +136,7 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
 
         self._context = ''
         self._wrapped_cek = None
+        self._received = False
         self._recipients = []
         self.recipients = recipients
 
@@ -411,6 +412,7 @@ class DirectKeyAgreement(CoseRecipient):
 
         if len(msg.recipients):
             raise CoseMalformedMessage(f'Recipient class {cls.__name__} cannot carry more recipients')
+        msg._received = True
 
         return msg
 
@@ -432,11 +434,12 @@ class DirectKeyAgreement(CoseRecipient):
         # static receiver key
         peer_key: 'EC2Key' = self.local_attrs.get(headers.StaticKey)
 
-        if peer_key is None:
+        # a received recipient structure already carries all it needs and is forwarded without any key
+        if peer_key is None and not self._received:
             raise CoseException("Static receiver key cannot be None. Should be configured in 'local_attrs' of the msg.")
 
         # if ephemeral and not set, generate ephemeral key pair
-        if self.key is None:
+        if self.key is None and not self._received:
             if alg in {EcdhEsHKDF256, EcdhEsHKDF512}:
                 self._setup_ephemeral_key(peer_key)
             else:
-- 
2.43.0


From 2edc7a892cc16bad0e2b0dd01681a7579b8085d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 35/45] fix: signatures are only computed with keys of the type
 the algorithm takes

---
 pycose/messages/signcommon.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycose/messages/signcommon.py b/pycose/messages/signcommon.py
index 319ed9f..4bb781c 100644
--- a/pycose/messages/signcommon.py
+++ b/pycose/messages/signcommon.py
@@ -2,6 +2,7 @@ import abc
 from typing import Optional, Type, TYPE_CHECKING
 
 from pycose import headers
+from pycose.algorithms import EdDSA, _Ecdsa, _RsaPkcs1, _RsaPss
 from pycose.keys.okp import OKPKey
 from pycose.exceptions import CoseException
 from pycose.keys.ec2 import EC2Key
@@ -36,6 +37,10 @@ class SignCommon(CoseMessage, metaclass=abc.ABCMeta):
         else:
             raise CoseException('Wrong key type')
 
+        for alg_type, key_type in ((_Ecdsa, EC2Key), (EdDSA, OKPKey), (_RsaPss, RSAKey), (_RsaPkcs1, RSAKey)):
+            if issubclass(alg, alg_type) and not isinstance(self.key, key_type):
+                raise CoseException('Wrong key type')
+
     def verify_signature(self, detached_payload: Optional[bytes] = None, *args, **kwargs) -> bool:
         """
         Verifies the signature of a received COSE message.
-- 
2.43.0


From 8ff7268dda9166d0b9582f94222fd771a70d4ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 36/45] fix: a certificate carrying a copy of a trust anchor's
 signature value is not a trust anchor

---
 pycose/extensions/x509.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pycose/extensions/x509.py b/pycose/extensions/x509.py
index cdc06c6..0eb47d6 100644
--- a/pycose/extensions/x509.py
+++ b/pycose/extensions/x509.py
@@ -2,6 +2,8 @@ from typing import List, Set, Union, Type
 
 import cbor2
 from certvalidator import CertificateValidator
+from certvalidator.errors import PathBuildingError
+from certvalidator.registry import CertificateRegistry
 
 from pycose.algorithms import CoseAlg, CoseAlgorithm
 
@@ -80,7 +82,14 @@ class X5Chain:
             end_entity_cert=cert_chain[0],
             intermediate_certs=cert_chain[1:],
         )
-        return val.validate_usage(key_usage)
+        path = val.validate_usage(key_usage)
+
+        # the validator recognizes a trust anchor by its signature value alone, which anybody can copy
+        anchor = path.first
+        if all(anchor.dump() != root.dump() for root in CertificateRegistry().retrieve_by_name(anchor.subject)):
+            raise PathBuildingError("The certificate chain does not lead to a certificate in the trust store")
+
+        return path
 
     def encode(self) -> Union[bytes, List[bytes]]:
         return self.cert_chain
-- 
2.43.0


From d51a0c7932d4b780ca28d90c3a6b1416f4578350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 37/45] fix: a trusted end-entity certificate is not accepted
 outside its validity period

---
 pycose/extensions/x509.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pycose/extensions/x509.py b/pycose/extensions/x509.py
index 0eb47d6..7e89356 100644
--- a/pycose/extensions/x509.py
+++ b/pycose/extensions/x509.py
@@ -1,8 +1,8 @@
 from typing import List, Set, Union, Type
 
 import cbor2
-from certvalidator import CertificateValidator
-from certvalidator.errors import PathBuildingError
+from certvalidator import CertificateValidator, ValidationContext
+from certvalidator.errors import InvalidCertificateError, PathBuildingError
 from certvalidator.registry import CertificateRegistry
 
 from pycose.algorithms import CoseAlg, CoseAlgorithm
@@ -78,9 +78,11 @@ class X5Chain:
     def verify_chain(self, key_usage: Set[str]):
         # a chain of one certificate is stored as the certificate itself
         cert_chain = self.cert_chain if isinstance(self.cert_chain, list) else [self.cert_chain]
+        context = ValidationContext()
         val = CertificateValidator(
             end_entity_cert=cert_chain[0],
             intermediate_certs=cert_chain[1:],
+            validation_context=context,
         )
         path = val.validate_usage(key_usage)
 
@@ -89,6 +91,11 @@ class X5Chain:
         if all(anchor.dump() != root.dump() for root in CertificateRegistry().retrieve_by_name(anchor.subject)):
             raise PathBuildingError("The certificate chain does not lead to a certificate in the trust store")
 
+        # the validator does not look at the validity period of an end-entity certificate that is itself trusted
+        validity = path[len(path) - 1]['tbs_certificate']['validity']
+        if not validity['not_before'].native <= context.moment <= validity['not_after'].native:
+            raise InvalidCertificateError("The end-entity certificate is outside its validity period")
+
         return path
 
     def encode(self) -> Union[bytes, List[bytes]]:
-- 
2.43.0


From 7e72666ef93bcaa1fffb62e3320468c6be40b99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:13 +0000
Subject: [PATCH 38/45] fix: SHA-512/256 is the hash function of FIPS 180-4,
 not SHA-512 cut to half

---
 pycose/algorithms.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 42315ba..c7e479f 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -12,7 +12,7 @@ from cryptography.hazmat.primitives.asymmetric.ed448 import Ed448PrivateKey, Ed4
 from cryptography.hazmat.primitives.ciphers import modes, Cipher
 from cryptography.hazmat.primitives.ciphers.aead import AESGCM, AESCCM
 from cryptography.hazmat.primitives.ciphers.algorithms import AES
-from cryptography.hazmat.primitives.hashes import Hash, HashAlgorithm, SHA1, SHA256, SHA512, SHA384, SHAKE128, SHAKE256
+from cryptography.hazmat.primitives.hashes import Hash, HashAlgorithm, SHA1, SHA256, SHA512, SHA512_256, SHA384, SHAKE128, SHAKE256
 from cryptography.hazmat.primitives.hmac import HMAC
 from cryptography.hazmat.primitives.kdf.hkdf import HKDF
 from cryptography.hazmat.primitives.keywrap import aes_key_wrap, aes_key_unwrap
@@ -914,8 +914,7 @@ class Sha512Trunc256(_HashAlg):
 
     identifier = -17
     fullname = "SHA-512/256"
-    hash_cls = SHA512
-    trunc_size = 32
+    hash_cls = SHA512_256
 
 
 @CoseAlgorithm.register_attribute()
-- 
2.43.0


From c35eece4ca3c183650aa2fcd8788e4f57ecc889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 39/45] fix: a base IV shorter or longer than the algorithm's
 nonce gives no nonce

---
 pycose/algorithms.py         | 41 ++++++++++++++++++++++++++++++++++++
 pycose/messages/enccommon.py |  2 ++
 2 files changed, 43 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index c7e479f..b8cb8b2 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -327,6 +327,10 @@ class _EcdhHkdf(CoseAlgorithm, ABC):
 
 class _AesGcm(_EncAlg, ABC):
 
+    @classmethod
+    def get_nonce_length(cls) -> int:
+        return 12
+
     @classmethod
     def encrypt(cls, key: 'SK', nonce: bytes, data: bytes, aad: bytes) -> bytes:
         cls._verify_key_length(key)
@@ -347,6 +351,11 @@ class _AesCcm(_EncAlg, ABC):
     def get_tag_length(cls) -> int:
         raise NotImplementedError()
 
+    @classmethod
+    @abstractmethod
+    def get_nonce_length(cls) -> int:
+        raise NotImplementedError()
+
     @classmethod
     def encrypt(cls, key: 'SK', nonce: bytes, data: bytes, aad: bytes) -> bytes:
         cls._verify_key_length(key)
@@ -1287,6 +1296,10 @@ class AESCCM1664128(_AesCcm):
     def get_key_length(cls) -> int:
         return 16
 
+    @classmethod
+    def get_nonce_length(cls) -> int:
+        return 13
+
 
 @CoseAlgorithm.register_attribute()
 class AESCCM1664256(_AesCcm):
@@ -1301,6 +1314,10 @@ class AESCCM1664256(_AesCcm):
     def get_key_length(cls) -> int:
         return 32
 
+    @classmethod
+    def get_nonce_length(cls) -> int:
+        return 13
+
 
 @CoseAlgorithm.register_attribute()
 class AESCCM6464128(_AesCcm):
@@ -1315,6 +1332,10 @@ class AESCCM6464128(_AesCcm):
     def get_key_length(cls) -> int:
         return 16
 
+    @classmethod
+    def get_nonce_length(cls) -> int:
+        return 7
+
 
 @CoseAlgorithm.register_attribute()
 class AESCCM6464256(_AesCcm):
@@ -1329,6 +1350,10 @@ class AESCCM6464256(_AesCcm):
     def get_tag_length(cls) -> int:
         return 8
 
+    @classmethod
+    def get_nonce_length(cls) -> int:
+        return 7
+
 
 @CoseAlgorithm.register_attribute()
 class AESMAC12864(_AesMac):
@@ -1400,6 +1425,10 @@ class AESCCM16128128(_AesCcm):
     def get_key_length(cls) -> int:
         return 16
 
+    @classmethod
+    def get_nonce_length(cls) -> int:
+        return 13
+
 
 @CoseAlgorithm.register_attribute()
 class AESCCM16128256(_AesCcm):
@@ -1414,6 +1443,10 @@ class AESCCM16128256(_AesCcm):
     def get_key_length(cls) -> int:
         return 32
 
+    @classmethod
+    def get_nonce_length(cls) -> int:
+        return 13
+
 
 @CoseAlgorithm.register_attribute()
 class AESCCM64128128(_AesCcm):
@@ -1428,6 +1461,10 @@ class AESCCM64128128(_AesCcm):
     def get_key_length(cls) -> int:
         return 16
 
+    @classmethod
+    def get_nonce_length(cls) -> int:
+        return 7
+
 
 @CoseAlgorithm.register_attribute()
 class AESCCM64128256(_AesCcm):
@@ -1442,6 +1479,10 @@ class AESCCM64128256(_AesCcm):
     def get_key_length(cls) -> int:
         return 32
 
+    @classmethod
+    def get_nonce_length(cls) -> int:
+        return 7
+
 
 # set parser
 Algorithm.value_parser = CoseAlgorithm.from_id
diff --git a/pycose/messages/enccommon.py b/pycose/messages/enccommon.py
index b020d9f..6e541c4 100644
--- a/pycose/messages/enccommon.py
+++ b/pycose/messages/enccommon.py
@@ -89,6 +89,8 @@ class EncCommon(CoseMessage, metaclass=abc.ABCMeta):
 
             # RFC 8152 section 3.1: left-pad the Partial IV with zeros to the length of the (full-length) context IV
             base_iv = self.key.base_iv
+            if len(base_iv) != self.get_attr(headers.Algorithm).get_nonce_length():
+                raise CoseException('Base IV does not have the length of a nonce')
             if len(partial_iv) > len(base_iv):
                 raise CoseException('Partial IV is longer than the base IV')
             nonce = int.from_bytes(partial_iv, "big") ^ int.from_bytes(base_iv, "big")
-- 
2.43.0


From 304ebc3f5187768a9a9f0987dbc790e158d1ad0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:53 +0000
Subject: [PATCH 40/45] fix: an RSA key prints its private parameters in full

---
 pycose/keys/rsa.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index 37e2810..ec5ab04 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -3,6 +3,7 @@ from typing import List, TYPE_CHECKING, Optional, Type, Union
 from cryptography.hazmat.backends import default_backend
 from cryptography.hazmat.primitives.asymmetric import rsa
 
+from pycose import utils
 from pycose.exceptions import CoseInvalidKey, CoseIllegalKeyType, CoseIllegalKeyOps
 from pycose.keys.cosekey import CoseKey, KpKty
 from pycose.keys.keyparam import (RSAKeyParam, RSAKpN, RSAKpE, RSAKpD, RSAKpP,
@@ -355,7 +356,15 @@ class RSAKey(CoseKey):
         return cls._from_cryptography_key(ext_key, optional_params)
 
     def __repr__(self):
-        hdr = f'<COSE_Key(RSAKey): {self._key_repr()}>'
+        _key = self._key_repr()
+
+        for kp in _key:
+            if isinstance(_key[kp], bytes) and len(_key[kp]) > 0:
+                _key[kp] = utils.truncate(_key[kp])
+        if 'RSAKpOther' in _key:
+            _key['RSAKpOther'] = f'... ({len(_key["RSAKpOther"])} primes)'
+
+        hdr = f'<COSE_Key(RSAKey): {_key}>'
         return hdr
 
 
-- 
2.43.0


From 262c73bd2f2d1e46120bf7001e158b3883214ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:58 +0000
Subject: [PATCH 41/45] fix: detached messages and messages with unexpected
 header values cannot be printed

---
 pycose/messages/cosebase.py | 8 ++++----
 pycose/utils.py             | 3 +++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index 8a4aae0..27426bd 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -187,16 +187,16 @@ class CoseBase(metaclass=abc.ABCMeta):
         uhdr = {(k.__name__ if hasattr(k, '__name__') else k): (
             self._uhdr[k].__name__ if hasattr(self._uhdr[k], '__name__') else self._uhdr[k]) for k in self._uhdr}
 
-        if 'IV' in phdr and len(phdr['IV']) > 0:
+        if isinstance(phdr.get('IV'), bytes) and len(phdr['IV']) > 0:
             phdr['IV'] = utils.truncate(phdr['IV'])
 
-        if 'IV' in uhdr and len(uhdr['IV']) > 0:
+        if isinstance(uhdr.get('IV'), bytes) and len(uhdr['IV']) > 0:
             uhdr['IV'] = utils.truncate(uhdr['IV'])
 
-        if 'PARTIAL_IV' in phdr and len(phdr['PARTIAL_IV']) > 0:
+        if isinstance(phdr.get('PARTIAL_IV'), bytes) and len(phdr['PARTIAL_IV']) > 0:
             phdr['PARTIAL_IV'] = utils.truncate(phdr['PARTIAL_IV'])
 
-        if 'PARTIAL_IV' in uhdr and len(uhdr['PARTIAL_IV']) > 0:
+        if isinstance(uhdr.get('PARTIAL_IV'), bytes) and len(uhdr['PARTIAL_IV']) > 0:
             uhdr['PARTIAL_IV'] = utils.truncate(uhdr['PARTIAL_IV'])
 
         return phdr, uhdr
diff --git a/pycose/utils.py b/pycose/utils.py
index 4a63441..d429906 100644
--- a/pycose/utils.py
+++ b/pycose/utils.py
@@ -78,4 +78,7 @@ class _CoseAttribute(ABC):
 
 
 def truncate(payload: bytes) -> str:
+    if not isinstance(payload, (bytes, bytearray, str)):
+        # detached (None), or whatever a peer put in its place
+        return repr(payload)
     return f'{payload[:5]} ... ({len(payload)} B)'
-- 
2.43.0


From a96dcb29e7bebb6a97e83af1443b95eeb1aad0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:04 +0000
Subject: [PATCH 42/45] fix: the private part of a key in a header is sent
 along

---
 pycose/messages/cosebase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index 27426bd..238c34e 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -10,6 +10,7 @@ from pycose.exceptions import CoseException
 from pycose.headers import CoseHeaderAttribute, Algorithm
 from pycose.keys.cosekey import CoseKey
 from pycose.keys.cosekey import KpKeyOps
+from pycose.keys.keyparam import EC2KpD, OKPKpD
 
 CBOR = bytes
 
@@ -154,6 +155,9 @@ class CoseBase(metaclass=abc.ABCMeta):
             new_dict = dict(cose_attribute)
             if KpKeyOps in new_dict and not len(new_dict[KpKeyOps]):
                 del new_dict[KpKeyOps]
+            # a key in a header is a public key
+            for private in (EC2KpD, OKPKpD):
+                new_dict.pop(private, None)
             encoder.encode(new_dict)
         elif issubclass(cose_attribute, CoseAlgorithm) and self.alg_tstr_encoding:
             encoder.encode(cose_attribute.fullname)
-- 
2.43.0


From b1da1de95f8d5628cd3f367d485db7feba51edc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:56 +0000
Subject: [PATCH 43/45] fix: the error about a misplaced value shows whole keys

---
 pycose/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycose/utils.py b/pycose/utils.py
index d429906..9bc6e62 100644
--- a/pycose/utils.py
+++ b/pycose/utils.py
@@ -40,7 +40,9 @@ class _CoseAttribute(ABC):
             if allow_unknown_attributes:
                 return attribute
             else:
-                raise CoseException(f"Unknown COSE attribute with value: [{cls.__name__} - {attribute}]")
+                # a misplaced value may be key material
+                value = truncate(attribute) if isinstance(attribute, bytes) else attribute
+                raise CoseException(f"Unknown COSE attribute with value: [{cls.__name__} - {value}]")
 
     @property
     @abstractmethod
-- 
2.43.0


From b1dd95204d9cadeb447cc6136180e654dd7e8934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:16 +0000
Subject: [PATCH 44/45] fix: ECDSA is done on the curve of the key, whatever
 the hash function

ES256, ES384 and ES512 used the curve customary for their hash function
even if the key was on another one: signatures made that way could not be
verified by anybody, and those of other implementations, which RFC 8152
section 8.1 allows on all three curves, could not be verified here.
---
 pycose/algorithms.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index b8cb8b2..e179b48 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -20,7 +20,7 @@ from ecdsa.curves import Curve, NIST521p, NIST384p, NIST256p
 from ecdsa.ellipticcurve import Point
 from ecdsa.keys import SigningKey, VerifyingKey, BadSignatureError
 
-from pycose.exceptions import CoseException
+from pycose.exceptions import CoseException, CoseUnsupportedCurve
 from pycose.headers import Algorithm
 from pycose.utils import _CoseAttribute
 
@@ -187,17 +187,28 @@ class _Ecdsa(CoseAlgorithm, ABC):
     def get_hash_func(cls):
         raise NotImplementedError()
 
+    @classmethod
+    def _get_key_curve(cls, key: 'EC2') -> Curve:
+        # RFC 8152 section 8.1: ECDSA works with these curves, and none of them is tied to a hash function
+        curves = {"P_256": NIST256p, "P_384": NIST384p, "P_521": NIST521p}
+
+        if key.crv.fullname not in curves:
+            raise CoseUnsupportedCurve(f"{cls.fullname} cannot be used with a key on the curve {key.crv.fullname}")
+
+        return curves[key.crv.fullname]
+
     @classmethod
     def sign(cls, key: 'EC2', data: bytes) -> bytes:
-        sk = SigningKey.from_secret_exponent(int(hexlify(key.d), 16), curve=cls.get_curve())
+        sk = SigningKey.from_secret_exponent(int(hexlify(key.d), 16), curve=cls._get_key_curve(key))
 
         return sk.sign_deterministic(data, hashfunc=cls.get_hash_func())
 
     @classmethod
     def verify(cls, key: 'EC2', data: bytes, signature: bytes) -> bool:
-        p = Point(curve=cls.get_curve().curve, x=int(hexlify(key.x), 16), y=int(hexlify(key.y), 16))
+        curve = cls._get_key_curve(key)
+        p = Point(curve=curve.curve, x=int(hexlify(key.x), 16), y=int(hexlify(key.y), 16))
 
-        vk = VerifyingKey.from_public_point(p, cls.get_curve(), cls.get_hash_func(), validate_point=True)
+        vk = VerifyingKey.from_public_point(p, curve, cls.get_hash_func(), validate_point=True)
 
         try:
             return vk.verify(signature=signature, data=data, hashfunc=cls.get_hash_func())
-- 
2.43.0


From fa4902374ace79680e298ec0458aa0f0bb16b122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:54 +0000
Subject: [PATCH 45/45] fix: the key of a recipient can be got through
 recipients of its own

---
 pycose/messages/recipient.py | 59 +++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 32744fb..22171c2 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -98,6 +98,16 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
 
         return False
 
+    @classmethod
+    def first_with_key(cls, recipients: List['Recipient']) -> Optional['Recipient']:
+        """ The first recipient that has a key, itself or through recipients of its own. """
+
+        for r in recipients:
+            if r.key is not None or cls.first_with_key(r.recipients) is not None:
+                return r
+
+        return None
+
     @classmethod
     def verify_recipients(cls, recipients: List['Recipient']) -> set:
         r_types = set()
@@ -311,35 +321,36 @@ class KeyWrap(CoseRecipient):
 
     def _compute_kek(self, target_alg: '_EncAlg', ops: 'str') -> bytes:
 
-        if self.key is None:
-            #  try to derive from this recipients' recipient list
-            if not len(self.recipients):
-                raise CoseException(f"No key found to {ops} the CEK")
-            else:
-                r_types = CoseRecipient.verify_recipients(self.recipients)
+        if self.key is not None:
+            return self.key.k
 
-                if ops == 'encrypt':
+        #  try to derive from this recipients' recipient list, the derived key is used with this recipient's algorithm
+        if not len(self.recipients):
+            raise CoseException(f"No key found to {ops} the CEK")
 
-                    if DirectKeyAgreement in r_types:
-                        self.key = self.recipients[0].compute_cek(target_alg)
+        alg = self.get_attr(headers.Algorithm)
+        r_types = CoseRecipient.verify_recipients(self.recipients)
 
-                    elif KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
-                        key_bytes = os.urandom(self.get_attr(headers.Algorithm))
-                        for r in self.recipients:
-                            r.payload = key_bytes
-                        self.key = SymmetricKey(k=key_bytes)
-                    else:
-                        raise CoseException('Unsupported COSE recipient class')
-                else:
-                    if DirectKeyAgreement in r_types or KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
-                        self.key = self.recipients[0].decrypt(self.get_attr(headers.Algorithm))
-                    else:
-                        raise CoseException('Unsupported COSE recipient class')
+        if not r_types <= {DirectKeyAgreement, KeyWrap, KeyAgreementWithKeyWrap}:
+            raise CoseException('Unsupported COSE recipient class')
 
-        if self.key is None:
-            raise CoseException("No key found to decrypt the CEK")
+        if ops == 'encrypt':
+            if DirectKeyAgreement in r_types:
+                return self.recipients[0].compute_cek(alg, ops).k
 
-        return self.key.k
+            # all recipients get the same key: the one already given to a recipient, or else a fresh one
+            key_bytes = next((r.payload for r in self.recipients if r.payload != b'' and not r.has_wrapped_cek), None)
+            if key_bytes is None:
+                key_bytes = os.urandom(alg.get_key_length())
+
+            for r in self.recipients:
+                r.payload = key_bytes
+            return key_bytes
+
+        r = CoseRecipient.first_with_key(self.recipients)
+        if r is None:
+            raise CoseException("No key found to decrypt the CEK")
+        return r.compute_cek(alg, ops).k
 
     def compute_cek(self, target_alg: '_EncAlg', ops: str) -> Optional['SK']:
         if ops == "encrypt":
-- 
2.43.0

