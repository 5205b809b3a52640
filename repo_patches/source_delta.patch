From 162a47951d6390e50f6258a1bda130a3f6324316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 01/13] fix: rfc2459: constrain INTEGERs by value range, not by
 size

ValueSizeConstraint on an INTEGER raises TypeError (int has no len()) for every
value, so CRLNumber, BaseCRLNumber, PolicyConstraints, TerminalType and
ExtensionAttribute could be neither built nor decoded.
---
 pyasn1_modules/rfc2459.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index 57f783e..1cce106 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -364,7 +364,7 @@ terminal_type = univ.Integer(23)
 
 
 class TerminalType(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueSizeConstraint(0, ub_integer_options)
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(0, ub_integer_options)
     namedValues = namedval.NamedValues(
         ('telex', 3),
         ('teletelex', 4),
@@ -595,7 +595,7 @@ common_name = univ.Integer(1)
 class ExtensionAttribute(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('extension-attribute-type', univ.Integer().subtype(
-            subtypeSpec=constraint.ValueSizeConstraint(0, ub_extension_attributes),
+            subtypeSpec=constraint.ValueRangeConstraint(0, ub_extension_attributes),
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0))),
         namedtype.NamedType('extension-attribute-value',
                             univ.Any().subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 1)))
@@ -774,7 +774,7 @@ id_ce_cRLNumber = univ.ObjectIdentifier('2.5.29.20')
 
 
 class CRLNumber(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueSizeConstraint(0, MAX)
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(0, MAX)
 
 
 class BaseCRLNumber(CRLNumber):
@@ -815,7 +815,7 @@ class ReasonFlags(univ.BitString):
 
 
 class SkipCerts(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueSizeConstraint(0, MAX)
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(0, MAX)
 
 
 id_ce_policyConstraints = univ.ObjectIdentifier('2.5.29.36')
-- 
2.43.0


From edc66fc9cee4b9b9cc68acb93087bd5735907b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 02/13] fix: rfc7292: BAG_TYPE open type is governed by its
 'id' field

It named a field ('attrType') BAG_TYPE does not have, so decoding with
decodeOpenTypes=True always failed.
---
 pyasn1_modules/rfc7292.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc7292.py b/pyasn1_modules/rfc7292.py
index 1c9f319..3063d1b 100644
--- a/pyasn1_modules/rfc7292.py
+++ b/pyasn1_modules/rfc7292.py
@@ -142,7 +142,7 @@ class BAG_TYPE(univ.Sequence):
 BAG_TYPE.componentType = namedtype.NamedTypes(
     namedtype.NamedType('id', univ.ObjectIdentifier()),
     namedtype.NamedType('unnamed1', univ.Any(),
-        openType=opentype.OpenType('attrType', pkcs12BagTypeMap)
+        openType=opentype.OpenType('id', pkcs12BagTypeMap)
     )
 )
 
-- 
2.43.0


From 533caec37f7e4547858bbe8b776e3952cb3d570b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 03/13] fix: rfc2315: AttributeValueAssertion open type is
 governed by 'attributeType'

It named a field ('type') the SEQUENCE does not have, so decoding with
decodeOpenTypes=True always failed.
---
 pyasn1_modules/rfc2315.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc2315.py b/pyasn1_modules/rfc2315.py
index 1069fc2..b0cb5cd 100644
--- a/pyasn1_modules/rfc2315.py
+++ b/pyasn1_modules/rfc2315.py
@@ -26,7 +26,7 @@ class AttributeValueAssertion(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('attributeType', AttributeType()),
         namedtype.NamedType('attributeValue', AttributeValue(),
-                            openType=opentype.OpenType('type', certificateAttributesMap))
+                            openType=opentype.OpenType('attributeType', certificateAttributesMap))
     )
 
 
-- 
2.43.0


From 0fc1165fc0e9bef58f32305550963b6775affb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 04/13] fix: rfc4334: apply the SSID size constraint

The constraint object was created and dropped. SSIDs longer than 32 octets were
accepted or rejected depending on whether rfc3770 or rfc4334 was imported last.
---
 pyasn1_modules/rfc4334.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc4334.py b/pyasn1_modules/rfc4334.py
index 44cd31b..8a7a1c7 100644
--- a/pyasn1_modules/rfc4334.py
+++ b/pyasn1_modules/rfc4334.py
@@ -42,7 +42,7 @@ id_kp_eapOverLAN = id_kp + (14, )
 id_pe_wlanSSID = id_pe + (13, )
 
 class SSID(univ.OctetString):
-    constraint.ValueSizeConstraint(1, 32)
+    subtypeSpec = constraint.ValueSizeConstraint(1, 32)
 
 
 class SSIDList(univ.SequenceOf):
-- 
2.43.0


From b4e11da99cc7b9a9febcbe4f6bd4adf4cb9f7966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 05/13] fix: rfc3280: drop the stray second DirectoryString

The leftover placeholder (CHOICE of ANY) shadowed the real CHOICE of strings, so
rfc3280.DirectoryString lost the tag of whatever it decoded.
---
 pyasn1_modules/rfc3280.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pyasn1_modules/rfc3280.py b/pyasn1_modules/rfc3280.py
index 4c6df13..5a54e13 100644
--- a/pyasn1_modules/rfc3280.py
+++ b/pyasn1_modules/rfc3280.py
@@ -1363,14 +1363,6 @@ id_ce_certificateIssuer = _OID(id_ce, 29)
 id_ce_invalidityDate = _OID(id_ce, 24)
 
 
-class DirectoryString(univ.Choice):
-    pass
-
-
-DirectoryString.componentType = namedtype.NamedTypes(
-    namedtype.NamedType('any', univ.Any())
-)
-
 id_ce_authorityKeyIdentifier = _OID(id_ce, 35)
 
 
-- 
2.43.0


From e167cfe2fca95626b169975f62bbbafff1ca73bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 06/13] fix: rfc2251: UnbindRequest is a primitive NULL

Its tag was derived from SEQUENCE: it was emitted as 62 00 and could not be
decoded, neither from a conforming peer (42 00) nor from its own output.
---
 pyasn1_modules/rfc2251.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc2251.py b/pyasn1_modules/rfc2251.py
index 094922c..8a5e2f0 100644
--- a/pyasn1_modules/rfc2251.py
+++ b/pyasn1_modules/rfc2251.py
@@ -276,7 +276,7 @@ class SearchRequest(univ.Sequence):
 
 
 class UnbindRequest(univ.Null):
-    tagSet = univ.Sequence.tagSet.tagImplicitly(
+    tagSet = univ.Null.tagSet.tagImplicitly(
         tag.Tag(tag.tagClassApplication, tag.tagFormatSimple, 2)
     )
 
-- 
2.43.0


From 5b521341cee4fae5bc897118eebbe795784ac53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 07/13] fix: rfc7191: let siren_dn be cloned, hence used as a
 decoding spec

---
 pyasn1_modules/rfc7191.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc7191.py b/pyasn1_modules/rfc7191.py
index 7c2be11..7ccab09 100644
--- a/pyasn1_modules/rfc7191.py
+++ b/pyasn1_modules/rfc7191.py
@@ -82,8 +82,8 @@ id_dn = univ.ObjectIdentifier('2.16.840.1.101.2.1.16.0')
 
 
 class siren_dn(SIREntityName):
-    def __init__(self):
-        SIREntityName.__init__(self)
+    def __init__(self, **kwargs):
+        SIREntityName.__init__(self, **kwargs)
         self['sirenType'] = id_dn
 
 
-- 
2.43.0


From e4f77322fcebf6aa52b97e1dd49d6339692019e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 08/13] fix: rfc6402: extendedFailInfo of CMCStatusInfoV2 is
 tagged [1]

Untagged, it clashed with pendInfo, so that no CMCStatusInfoV2 with otherInfo
could be decoded.
---
 pyasn1_modules/rfc6402.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc6402.py b/pyasn1_modules/rfc6402.py
index 5490b05..d24e2ce 100644
--- a/pyasn1_modules/rfc6402.py
+++ b/pyasn1_modules/rfc6402.py
@@ -151,7 +151,7 @@ CMCStatusInfoV2.componentType = namedtype.NamedTypes(
                     componentType=namedtype.NamedTypes(
                         namedtype.NamedType('failInfoOID', univ.ObjectIdentifier()),
                         namedtype.NamedType('failInfoValue', AttributeValue()))
-                    )
+                    ).subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))
                 )
             )
         )
-- 
2.43.0


From 343350ee0ef5c6aefc446d48a782b89add092c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 09/13] fix: pem: never join an unterminated block with the
 block following it

A block that lost its END line was returned together with the base64-decoded
marker line and the content of the next block.
---
 pyasn1_modules/pem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyasn1_modules/pem.py b/pyasn1_modules/pem.py
index f7c80a9..b3c345e 100644
--- a/pyasn1_modules/pem.py
+++ b/pyasn1_modules/pem.py
@@ -35,6 +35,10 @@ def readPemBlocksFromFile(fileObj, *markers):
         if state == stHam:
             if certLine in stopMarkers and stopMarkers[certLine] == idx:
                 state = stDump
+            elif certLine in startMarkers:
+                # previous block is incomplete, start over
+                certLines = []
+                idx = startMarkers[certLine]
             else:
                 certLines.append(certLine)
         if state == stDump:
-- 
2.43.0


From 534b852c777b611f9a2ae1ab58dca5e69e712746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 10/13] fix: cmcdump: do not loop forever on an unsupported
 content type

---
 tools/cmcdump.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/cmcdump.py b/tools/cmcdump.py
index d16774d..98a8fc0 100755
--- a/tools/cmcdump.py
+++ b/tools/cmcdump.py
@@ -59,3 +59,7 @@ while next_layer:
 
         next_layer = None
         data = None
+
+    else:
+        print(" * Unsupported layer: %s" % next_layer)
+        sys.exit(-1)
-- 
2.43.0


From e23ec731616e3e324e1c0d144667eab9dea9a341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 11/13] fix: ocspclient: hash the issuer key with the current
 pyasn1 API

The tool died at start-up: encoder.encoder is gone. The OCSP issuerKeyHash is
taken over the BIT STRING value, which is what asOctets() returns.
---
 tools/ocspclient.py | 24 +-----------------------
 1 file changed, 1 insertion(+), 23 deletions(-)

diff --git a/tools/ocspclient.py b/tools/ocspclient.py
index 84f06fb..ccc88da 100755
--- a/tools/ocspclient.py
+++ b/tools/ocspclient.py
@@ -25,28 +25,6 @@ from pyasn1_modules import pem
 sha1oid = univ.ObjectIdentifier((1, 3, 14, 3, 2, 26))
 
 
-# noinspection PyClassHasNoInit
-class ValueOnlyBitStringEncoder(encoder.encoder.BitStringEncoder):
-    # These methods just do not encode tag and length fields of TLV
-    def encodeTag(self, *args):
-        return ''
-
-    def encodeLength(self, *args):
-        return ''
-
-    def encodeValue(*args):
-        substrate, isConstructed = encoder.encoder.BitStringEncoder.encodeValue(*args)
-        # OCSP-specific hack follows: cut off the "unused bit count"
-        # encoded bit-string value.
-        return substrate[1:], isConstructed
-
-    def __call__(self, bitStringValue):
-        return self.encode(None, bitStringValue, defMode=True, maxChunkSize=0)
-
-
-valueOnlyBitStringEncoder = ValueOnlyBitStringEncoder()
-
-
 # noinspection PyShadowingNames
 def mkOcspRequest(issuerCert, userCert):
     issuerTbsCertificate = issuerCert.getComponentByName('tbsCertificate')
@@ -67,7 +45,7 @@ def mkOcspRequest(issuerCert, userCert):
         'subjectPublicKey')
 
     issuerKeyHash = hashlib.sha1(
-        valueOnlyBitStringEncoder(issuerSubjectPublicKey)
+        issuerSubjectPublicKey.asOctets()
     ).digest()
 
     userSerialNumber = userTbsCertificate.getComponentByName('serialNumber')
-- 
2.43.0


From c17223f4a4a4f060e9d99cc8c4dece1df7e76528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 12/13] fix: pem: give up a block that runs into the end of a
 block of another kind

---
 pyasn1_modules/pem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyasn1_modules/pem.py b/pyasn1_modules/pem.py
index b3c345e..2381151 100644
--- a/pyasn1_modules/pem.py
+++ b/pyasn1_modules/pem.py
@@ -39,6 +39,9 @@ def readPemBlocksFromFile(fileObj, *markers):
                 # previous block is incomplete, start over
                 certLines = []
                 idx = startMarkers[certLine]
+            elif certLine in stopMarkers:
+                # end of some other block, this one is lost
+                state = stSpam
             else:
                 certLines.append(certLine)
         if state == stDump:
-- 
2.43.0


From a6fbfff413824fe74cdc384a2fc22931e8116434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:50 +0000
Subject: [PATCH 13/13] fix: let the dump tools print long keys and signatures

Python 3.11 and later refuse to convert integers of more than 4300 digits
to text. pyasn1 shows INTEGER and BIT STRING values in decimal, so the tools
ended in ValueError on RSA keys of 16384 bits and on signatures or public
keys of more than about 1780 octets (as post-quantum algorithms have).
---
 tools/cmcdump.py          | 4 ++++
 tools/cmpdump.py          | 4 ++++
 tools/crldump.py          | 4 ++++
 tools/crmfdump.py         | 4 ++++
 tools/ocspreqdump.py      | 4 ++++
 tools/ocsprspdump.py      | 4 ++++
 tools/pkcs10dump.py       | 4 ++++
 tools/pkcs1dump.py        | 4 ++++
 tools/pkcs7dump.py        | 4 ++++
 tools/x509dump-rfc5280.py | 4 ++++
 tools/x509dump.py         | 4 ++++
 11 files changed, 44 insertions(+)

diff --git a/tools/cmcdump.py b/tools/cmcdump.py
index 98a8fc0..8f549cc 100755
--- a/tools/cmcdump.py
+++ b/tools/cmcdump.py
@@ -12,6 +12,10 @@ from pyasn1_modules import pem
 from pyasn1_modules import rfc5652
 from pyasn1_modules import rfc6402
 
+# Long keys and signatures are printed in decimal
+if hasattr(sys, 'set_int_max_str_digits'):
+    sys.set_int_max_str_digits(0)
+
 if len(sys.argv) != 1:
     print("""Usage:
 $ cat cmc_request.pem | %s""" % (sys.argv[0],))
diff --git a/tools/cmpdump.py b/tools/cmpdump.py
index ebf8dba..fd6e36d 100755
--- a/tools/cmpdump.py
+++ b/tools/cmpdump.py
@@ -17,6 +17,10 @@ from pyasn1.codec.der import encoder
 from pyasn1_modules import pem
 from pyasn1_modules import rfc4210
 
+# Long keys and signatures are printed in decimal
+if hasattr(sys, 'set_int_max_str_digits'):
+    sys.set_int_max_str_digits(0)
+
 if len(sys.argv) == 2 and sys.argv[1] == '-d':
     debug.setLogger(debug.Debug('all'))
 elif len(sys.argv) != 1:
diff --git a/tools/crldump.py b/tools/crldump.py
index 9eaf6ba..86bac5a 100755
--- a/tools/crldump.py
+++ b/tools/crldump.py
@@ -17,6 +17,10 @@ from pyasn1.codec.der import encoder
 from pyasn1_modules import pem
 from pyasn1_modules import rfc2459
 
+# Long keys and signatures are printed in decimal
+if hasattr(sys, 'set_int_max_str_digits'):
+    sys.set_int_max_str_digits(0)
+
 if len(sys.argv) != 1:
     print("""Usage:
 $ cat crl.pem | %s""" % sys.argv[0])
diff --git a/tools/crmfdump.py b/tools/crmfdump.py
index f23fd0d..555b24e 100755
--- a/tools/crmfdump.py
+++ b/tools/crmfdump.py
@@ -16,6 +16,10 @@ from pyasn1.codec.der import encoder
 from pyasn1_modules import pem
 from pyasn1_modules import rfc2511
 
+# Long keys and signatures are printed in decimal
+if hasattr(sys, 'set_int_max_str_digits'):
+    sys.set_int_max_str_digits(0)
+
 if len(sys.argv) != 1:
     print("""Usage:
 $ cat crmf.pem | %s""" % sys.argv[0])
diff --git a/tools/ocspreqdump.py b/tools/ocspreqdump.py
index 3e43418..58e367b 100755
--- a/tools/ocspreqdump.py
+++ b/tools/ocspreqdump.py
@@ -16,6 +16,10 @@ from pyasn1.codec.der import encoder
 from pyasn1_modules import pem
 from pyasn1_modules import rfc2560
 
+# Long keys and signatures are printed in decimal
+if hasattr(sys, 'set_int_max_str_digits'):
+    sys.set_int_max_str_digits(0)
+
 if len(sys.argv) != 1:
     print("""Usage:
 $ cat ocsp-request.pem | %s""" % sys.argv[0])
diff --git a/tools/ocsprspdump.py b/tools/ocsprspdump.py
index 1f79acd..2dae98f 100755
--- a/tools/ocsprspdump.py
+++ b/tools/ocsprspdump.py
@@ -16,6 +16,10 @@ from pyasn1.codec.der import encoder
 from pyasn1_modules import pem
 from pyasn1_modules import rfc2560
 
+# Long keys and signatures are printed in decimal
+if hasattr(sys, 'set_int_max_str_digits'):
+    sys.set_int_max_str_digits(0)
+
 if len(sys.argv) != 1:
     print("""Usage:
 $ cat ocsp-response.pem | %s""" % sys.argv[0])
diff --git a/tools/pkcs10dump.py b/tools/pkcs10dump.py
index 385312a..1aff332 100755
--- a/tools/pkcs10dump.py
+++ b/tools/pkcs10dump.py
@@ -16,6 +16,10 @@ from pyasn1.codec.der import encoder
 from pyasn1_modules import pem
 from pyasn1_modules import rfc2314
 
+# Long keys and signatures are printed in decimal
+if hasattr(sys, 'set_int_max_str_digits'):
+    sys.set_int_max_str_digits(0)
+
 if len(sys.argv) != 1:
     print("""Usage:
 $ cat certificateRequest.pem | %s""" % sys.argv[0])
diff --git a/tools/pkcs1dump.py b/tools/pkcs1dump.py
index 72fb1dd..6298315 100755
--- a/tools/pkcs1dump.py
+++ b/tools/pkcs1dump.py
@@ -18,6 +18,10 @@ from pyasn1_modules import pem
 from pyasn1_modules import rfc2437
 from pyasn1_modules import rfc2459
 
+# Long keys and signatures are printed in decimal
+if hasattr(sys, 'set_int_max_str_digits'):
+    sys.set_int_max_str_digits(0)
+
 if len(sys.argv) != 1:
     print("""Usage:
 $ cat rsakey.pem | %s""" % sys.argv[0])
diff --git a/tools/pkcs7dump.py b/tools/pkcs7dump.py
index 7ac2eb9..1e81fac 100755
--- a/tools/pkcs7dump.py
+++ b/tools/pkcs7dump.py
@@ -16,6 +16,10 @@ from pyasn1.codec.der import encoder
 from pyasn1_modules import pem
 from pyasn1_modules import rfc2315
 
+# Long keys and signatures are printed in decimal
+if hasattr(sys, 'set_int_max_str_digits'):
+    sys.set_int_max_str_digits(0)
+
 if len(sys.argv) != 1:
     print("""Usage:
 $ cat pkcs7Certificate.pem | %s""" % sys.argv[0])
diff --git a/tools/x509dump-rfc5280.py b/tools/x509dump-rfc5280.py
index 26a79e9..16116b0 100755
--- a/tools/x509dump-rfc5280.py
+++ b/tools/x509dump-rfc5280.py
@@ -18,6 +18,10 @@ from pyasn1.codec.der import encoder
 from pyasn1_modules import pem
 from pyasn1_modules import rfc5280
 
+# Long keys and signatures are printed in decimal
+if hasattr(sys, 'set_int_max_str_digits'):
+    sys.set_int_max_str_digits(0)
+
 if len(sys.argv) != 1:
     print("""Usage:
 $ cat CACertificate.pem | %s
diff --git a/tools/x509dump.py b/tools/x509dump.py
index 1b8cca4..8c4bec3 100755
--- a/tools/x509dump.py
+++ b/tools/x509dump.py
@@ -16,6 +16,10 @@ from pyasn1.codec.der import encoder
 from pyasn1_modules import pem
 from pyasn1_modules import rfc2459
 
+# Long keys and signatures are printed in decimal
+if hasattr(sys, 'set_int_max_str_digits'):
+    sys.set_int_max_str_digits(0)
+
 if len(sys.argv) != 1:
     print("""Usage:
 $ cat CACertificate.pem | %s
-- 
2.43.0

