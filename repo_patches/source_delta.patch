From 8229a86fe0a3749dee2a0d9029780d99133a6282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:15 +0000
Subject: [PATCH 1/9] fix: pass the attestation object to attest during
 registration

The attestation procedures take the parsed AttestationObject; the backend
passed the credential public key instead, so every fido-u2f and android-key
registration failed with an InternalError.
---
 webauthn_rp/backends.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/webauthn_rp/backends.py b/webauthn_rp/backends.py
index 4f684a5..20d89d6 100644
--- a/webauthn_rp/backends.py
+++ b/webauthn_rp/backends.py
@@ -200,10 +200,9 @@ class CredentialsBackend:
             assert attestation.auth_data is not None
             assert attestation.auth_data.attested_credential_data is not None
 
-            att_type, trusted_path = attest(
-                attestation.att_stmt, attestation.auth_data.
-                attested_credential_data.credential_public_key,
-                raw_att_obj['authData'], client_data_JSON_hash)
+            att_type, trusted_path = attest(attestation.att_stmt, attestation,
+                                            raw_att_obj['authData'],
+                                            client_data_JSON_hash)
 
             try:
                 response = self.registrar.register_credential_attestation(
-- 
2.43.0


From 570f21bb327b0da70998b839d7c3c19939f6ce89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 2/9] fix: encode the COSE base IV whenever the key has one

The base IV (label 5) was only emitted when key_ops was set, so a key with a
base IV and no key_ops lost it on the way through cose_key.
---
 webauthn_rp/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webauthn_rp/converters.py b/webauthn_rp/converters.py
index 2d12b1e..6eb41eb 100644
--- a/webauthn_rp/converters.py
+++ b/webauthn_rp/converters.py
@@ -170,7 +170,7 @@ def _build_base_cose_dictionary(
     d[3] = credential_public_key.alg.value
     if credential_public_key.key_ops is not None:
         d[4] = [x.value for x in credential_public_key.key_ops]
-    if credential_public_key.key_ops is not None:
+    if credential_public_key.base_IV is not None:
         d[5] = credential_public_key.base_IV
     return d
 
-- 
2.43.0


From 750eba694d9d38091be5282c3aa329f08fbdb54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:21 +0000
Subject: [PATCH 3/9] fix: report malformed origins as OriginError

urlparse and the port property raise a bare ValueError for an origin with an
invalid port or a malformed IPv6 host.
---
 webauthn_rp/parsers.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index d902be6..4961d2e 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -66,7 +66,12 @@ def parse_origin(origin: str) -> Origin:
     if '://' not in origin:
         raise OriginError('Invalid origin, missing scheme')
 
-    url = urlparse(origin)
+    try:
+        url = urlparse(origin)
+        url_port = url.port
+    except ValueError:
+        raise OriginError('Invalid origin, could not be parsed')
+
     if url.path or url.params or url.query or url.fragment:
         raise OriginError('Invalid origin, cannot have path, params, query, '
                           'or fragment present')
@@ -80,10 +85,10 @@ def parse_origin(origin: str) -> Origin:
 
     scheme = url.scheme
     hostname = url.netloc
-    if url.port is None:
+    if url_port is None:
         port = _SCHEME_DEFAULT_PORT_MAPPING[scheme]
     else:
-        port = url.port
+        port = url_port
 
     return Origin(
         scheme=scheme,
-- 
2.43.0


From a7dbaa82aaa4274315134242cc2f030db9ed5915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 4/9] fix: report undecodable client data JSON as DecodingError

json.loads also raises a plain ValueError (oversized integers) and
RecursionError (deeply nested input). ValueError covers UnicodeDecodeError and
JSONDecodeError.
---
 webauthn_rp/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index 4961d2e..0c8a854 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -724,7 +724,7 @@ def parse_client_data(client_data_JSON: bytes) -> CollectedClientData:
     try:
         client_data_text = client_data_JSON.decode('utf-8')
         client_data = json.loads(client_data_text)
-    except (UnicodeDecodeError, json.JSONDecodeError):
+    except (ValueError, RecursionError):
         raise DecodingError('Could not decode the client data JSON')
 
     if type(client_data) is not dict:
-- 
2.43.0


From 160674e48b2a360195d6da90c967eaaa98019067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 5/9] fix: report every CBOR decoding failure as DecodingError

cbor2 also raises UnicodeDecodeError, OverflowError, RecursionError, re.error,
SystemError and others on malformed input, which escaped the parsers.
---
 webauthn_rp/parsers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index 0c8a854..61e0205 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -794,7 +794,7 @@ def parse_cose_key(
     if type(credential_public_key) is bytes:
         try:
             credential_public_key = cbor2.loads(credential_public_key)
-        except cbor2.CBORDecodeError:
+        except Exception:
             raise DecodingError('Could not decode credential public key CBOR')
 
         if type(credential_public_key) is not dict:
@@ -866,7 +866,7 @@ def parse_authenticator_data(auth_data: bytes) -> AuthenticatorData:
 
             try:
                 credential_public_key = cbor2.load(remaining_bytes_io)
-            except cbor2.CBORDecodeError:
+            except Exception:
                 raise DecodingError(
                     'Could not decode the credential public key CBOR')
 
@@ -890,7 +890,7 @@ def parse_authenticator_data(auth_data: bytes) -> AuthenticatorData:
         try:
             try:
                 extensions = cbor2.load(remaining_bytes_io)
-            except cbor2.CBORDecodeError:
+            except Exception:
                 raise DecodingError('Could not decode the extensions CBOR')
 
             if type(extensions) is not dict:
@@ -933,7 +933,7 @@ def parse_attestation_object(
     """
     try:
         attestation_object_data = cbor2.loads(attestation_object)
-    except cbor2.CBORDecodeError:
+    except Exception:
         raise DecodingError('Could not decode the attestation object CBOR')
 
     if type(attestation_object_data) is not dict:
-- 
2.43.0


From 960e02102f57bfa893c0861379161219e9b5851e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:19 +0000
Subject: [PATCH 6/9] fix: require a P-256 credential key in FIDO U2F
 attestation

The statement was accepted for any EC2 credential key whose coordinates the
signature covered, P-384 and P-521 included, and an OKP key caused an
AttributeError. The specification requires 32-byte x and y coordinates.
---
 webauthn_rp/attesters.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/webauthn_rp/attesters.py b/webauthn_rp/attesters.py
index 8a8cec0..f2fd7f1 100644
--- a/webauthn_rp/attesters.py
+++ b/webauthn_rp/attesters.py
@@ -16,7 +16,8 @@ from pyasn1.codec.der.decoder import decode
 from pyasn1.error import PyAsn1Error
 
 from webauthn_rp.asn1 import KeyDescription
-from webauthn_rp.constants import KM_ORIGIN_GENERATED, KM_PURPOSE_SIGN
+from webauthn_rp.constants import (KM_ORIGIN_GENERATED, KM_PURPOSE_SIGN,
+                                   P_256_COORDINATE_BYTE_LENGTH)
 from webauthn_rp.converters import cryptography_public_key
 from webauthn_rp.errors import AttestationError, UnimplementedError
 from webauthn_rp.types import (AndroidKeyAttestationStatement,
@@ -106,7 +107,12 @@ def attest_fido_u2f(
         EC2CredentialPublicKey,
         att_obj.auth_data.attested_credential_data.credential_public_key)
 
-    assert credential_public_key is not None
+    if (not isinstance(credential_public_key, EC2CredentialPublicKey)
+            or len(credential_public_key.x) != P_256_COORDINATE_BYTE_LENGTH
+            or len(credential_public_key.y) != P_256_COORDINATE_BYTE_LENGTH):
+        raise AttestationError(
+            'FIDO U2F attestation failed: must use a P-256 credential key')
+
     public_key_u2f = b'\x04' + (credential_public_key.x +
                                 credential_public_key.y)
 
-- 
2.43.0


From 14403bdaae5f9c433f8df001f9b45f59e691c603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 7/9] fix: report an unloadable Android key certificate as
 AttestationError

As the FIDO U2F procedure already does.
---
 webauthn_rp/attesters.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/webauthn_rp/attesters.py b/webauthn_rp/attesters.py
index f2fd7f1..b12c58b 100644
--- a/webauthn_rp/attesters.py
+++ b/webauthn_rp/attesters.py
@@ -157,8 +157,13 @@ def attest_android_key(
     if len(att_stmt.x5c) == 0:
         raise AttestationError('Must have at least 1 X509 certificate')
 
-    credential_certificate = cryptography.x509.load_der_x509_certificate(
-        att_stmt.x5c[0], default_backend())
+    try:
+        credential_certificate = cryptography.x509.load_der_x509_certificate(
+            att_stmt.x5c[0], default_backend())
+    except ValueError:
+        raise AttestationError(
+            'Android key attestation failed: unable to load X509 certificate')
+
     cred_cert_pk = credential_certificate.public_key()
     if not isinstance(
             cred_cert_pk,
-- 
2.43.0


From 218b638e36626a27e3edb49da228ff32bd799165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:04 +0000
Subject: [PATCH 8/9] fix: report an unloadable attestation certificate key as
 AttestationError

---
 webauthn_rp/attesters.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/webauthn_rp/attesters.py b/webauthn_rp/attesters.py
index b12c58b..27b7cc1 100644
--- a/webauthn_rp/attesters.py
+++ b/webauthn_rp/attesters.py
@@ -90,7 +90,13 @@ def attest_fido_u2f(
         raise AttestationError(
             'FIDO U2F attestation failed: unable to load X509 certificate')
 
-    att_cert_x509_pk = att_cert_x509.public_key()
+    try:
+        att_cert_x509_pk = att_cert_x509.public_key()
+    except (ValueError, cryptography.exceptions.UnsupportedAlgorithm):
+        raise AttestationError(
+            'FIDO U2F attestation failed: unable to load certificate public key'
+        )
+
     if not isinstance(att_cert_x509_pk, EllipticCurvePublicKey):
         raise AttestationError(
             'FIDO U2F attestation failed: must use an Elliptic Curve Public Key'
@@ -164,7 +170,13 @@ def attest_android_key(
         raise AttestationError(
             'Android key attestation failed: unable to load X509 certificate')
 
-    cred_cert_pk = credential_certificate.public_key()
+    try:
+        cred_cert_pk = credential_certificate.public_key()
+    except (ValueError, cryptography.exceptions.UnsupportedAlgorithm):
+        raise AttestationError(
+            'Android key attestation failed: unable to load certificate public '
+            'key')
+
     if not isinstance(
             cred_cert_pk,
         (EllipticCurvePublicKey, Ed25519PublicKey, Ed448PublicKey)):
-- 
2.43.0


From 52d3bf985e2211c1a0a957e3651dc1d2dc03d8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:06 +0000
Subject: [PATCH 9/9] fix: keep parser error messages from failing on
 unprintable values

---
 webauthn_rp/parsers.py | 38 ++++++++++++++++++++++++++------------
 webauthn_rp/types.py   |  2 +-
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index 61e0205..58349fe 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -97,6 +97,15 @@ def parse_origin(origin: str) -> Origin:
     )
 
 
+def _describe(value: Any) -> str:
+    # Decoded integers can be too large, and decoded containers too deeply
+    # nested, to be converted into text.
+    try:
+        return str(value)
+    except Exception:
+        return str(type(value))
+
+
 def _parse_dictionary_field(field_key: Any,
                             valid_types: Union[Type, Sequence[Type]],
                             dictionary: Dict,
@@ -120,7 +129,7 @@ def _check_unsupported_keys(supported: Set[str], data: Dict):
     unsupported_keys = set(data.keys()).difference(supported)
     if unsupported_keys:
         raise ParserError(('Found unsupported keys in data {}').format(
-            str(unsupported_keys)))
+            _describe(unsupported_keys)))
 
 
 def _bytes_from_base64(s: str) -> bytes:
@@ -205,7 +214,8 @@ def _parse_credential_public_key_kty(
                    COSEKeyType(kty_raw))  # type: ignore
     except (KeyError, ValueError):
         raise ParserError(
-            'Invalid credential public key type {}'.format(kty_raw))
+            'Invalid credential public key type {}'.format(
+                _describe(kty_raw)))
     return kty
 
 
@@ -220,7 +230,8 @@ def _parse_credential_public_key_alg(
                    COSEAlgorithmIdentifier(alg_raw))  # type: ignore
     except (KeyError, ValueError):
         raise ParserError(
-            'Invalid credential public key alg type {}'.format(alg_raw))
+            'Invalid credential public key alg type {}'.format(
+                _describe(alg_raw)))
     return alg
 
 
@@ -247,7 +258,7 @@ def _parse_credential_public_key_key_ops(
             key_ops.append(COSEKeyOperation(ko))  # type: ignore
         except (KeyError, ValueError):
             raise ParserError('Invalid credential public key key op {}'.format(
-                credential_public_key[4]))
+                _describe(credential_public_key[4])))
 
     return key_ops
 
@@ -273,7 +284,8 @@ def _parse_ec2_public_key_crv(
     try:
         return EC2Curve(crv_raw)  # type: ignore
     except (KeyError, ValueError):
-        raise ParserError('Invalid EC2 curve {}'.format(crv_raw))
+        raise ParserError('Invalid EC2 curve {}'.format(
+            _describe(crv_raw)))
 
 
 def _parse_okp_public_key_crv(
@@ -282,7 +294,8 @@ def _parse_okp_public_key_crv(
     try:
         return OKPCurve(crv_raw)  # type: ignore
     except (KeyError, ValueError):
-        raise ParserError('Invalid OKP curve {}'.format(crv_raw))
+        raise ParserError('Invalid OKP curve {}'.format(
+            _describe(crv_raw)))
 
 
 def parse_okp_public_key(
@@ -391,7 +404,7 @@ def parse_extensions(
 
     if unsupported_extensions:
         raise ParserError('Found unsupported extensions {}'.format(
-            str(unsupported_extensions)))
+            _describe(unsupported_extensions)))
 
     appid = extensions.get('appid')
     tx_auth_simple = extensions.get('txAuthSimple')
@@ -452,7 +465,7 @@ def parse_extensions(
         unsupported_cvalues = set(loc.keys()).difference(supported_cvalues)
         if unsupported_cvalues:
             raise ParserError('Found unsupported loc key values {}'.format(
-                str(unsupported_cvalues)))
+                _describe(unsupported_cvalues)))
 
         loc = Coordinates(latitude=loc.get('latitude'),
                           longitude=loc.get('longitude'),
@@ -504,7 +517,8 @@ def _parse_attestation_statement_alg(
     try:
         alg = COSEAlgorithmIdentifier(alg)  # type: ignore
     except (KeyError, ValueError):
-        raise ParserError('Invalid algorithm identifier {}'.format(alg))
+        raise ParserError('Invalid algorithm identifier {}'.format(
+            _describe(alg)))
     return alg
 
 
@@ -752,9 +766,9 @@ def parse_client_data(client_data_JSON: bytes) -> CollectedClientData:
         try:
             token_binding_status_enum = TokenBindingStatus(
                 token_binding_status)
-        except ValueError:
-            raise ParserError(
-                'Invalid Token Binding status {}'.format(token_binding_status))
+        except (ValueError, RecursionError):
+            raise ParserError('Invalid Token Binding status {}'.format(
+                _describe(token_binding_status)))
 
         if token_binding_status_enum == TokenBindingStatus.PRESENT and (
                 token_binding_id is None):
diff --git a/webauthn_rp/types.py b/webauthn_rp/types.py
index 4369c4c..a48a314 100644
--- a/webauthn_rp/types.py
+++ b/webauthn_rp/types.py
@@ -306,7 +306,7 @@ class _NameValueEnumsContainer(type):
         elif type(value) is str:
             return cls.Name(value)  # type: ignore
         else:
-            raise KeyError('Invalid key {}'.format(value))
+            raise KeyError('Invalid key type {}'.format(type(value)))
 
 
 class COSEAlgorithmIdentifier(metaclass=_NameValueEnumsContainer):
-- 
2.43.0

