From f6f0d2ebe7ab980bc7a604bf2acdd4e80d90d566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 01/37] fix: let rfc7191.siren_dn be cloned, sub-typed and
 decoded

Its constructor took no keyword arguments, which pyasn1 passes when it
copies a schema object, so decoding with siren_dn as the spec failed with
TypeError.
---
 pyasn1_modules/rfc7191.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc7191.py b/pyasn1_modules/rfc7191.py
index 7c2be11..7ccab09 100644
--- a/pyasn1_modules/rfc7191.py
+++ b/pyasn1_modules/rfc7191.py
@@ -82,8 +82,8 @@ id_dn = univ.ObjectIdentifier('2.16.840.1.101.2.1.16.0')
 
 
 class siren_dn(SIREntityName):
-    def __init__(self):
-        SIREntityName.__init__(self)
+    def __init__(self, **kwargs):
+        SIREntityName.__init__(self, **kwargs)
         self['sirenType'] = id_dn
 
 
-- 
2.43.0


From 9d4ad8502b6a2b22b43263627a298b494904b308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 02/37] fix: encode LDAP UnbindRequest as a primitive NULL

Deriving the tag from SEQUENCE made the encoder emit 0x62 0x00, which the
DER decoder then refuses; RFC 2251 prescribes 0x42 0x00.
---
 pyasn1_modules/rfc2251.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc2251.py b/pyasn1_modules/rfc2251.py
index 094922c..8a5e2f0 100644
--- a/pyasn1_modules/rfc2251.py
+++ b/pyasn1_modules/rfc2251.py
@@ -276,7 +276,7 @@ class SearchRequest(univ.Sequence):
 
 
 class UnbindRequest(univ.Null):
-    tagSet = univ.Sequence.tagSet.tagImplicitly(
+    tagSet = univ.Null.tagSet.tagImplicitly(
         tag.Tag(tag.tagClassApplication, tag.tagFormatSimple, 2)
     )
 
-- 
2.43.0


From 460ee90092e0833ec663fdad5ed39e75b37f54eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 03/37] fix: rfc2459 limits INTEGER types by value, not by size

TerminalType, CRLNumber, BaseCRLNumber, SkipCerts (hence PolicyConstraints)
and ExtensionAttribute carried a ValueSizeConstraint, so that creating or
decoding any value of them failed with TypeError.
---
 pyasn1_modules/rfc2459.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index 57f783e..1cce106 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -364,7 +364,7 @@ terminal_type = univ.Integer(23)
 
 
 class TerminalType(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueSizeConstraint(0, ub_integer_options)
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(0, ub_integer_options)
     namedValues = namedval.NamedValues(
         ('telex', 3),
         ('teletelex', 4),
@@ -595,7 +595,7 @@ common_name = univ.Integer(1)
 class ExtensionAttribute(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('extension-attribute-type', univ.Integer().subtype(
-            subtypeSpec=constraint.ValueSizeConstraint(0, ub_extension_attributes),
+            subtypeSpec=constraint.ValueRangeConstraint(0, ub_extension_attributes),
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0))),
         namedtype.NamedType('extension-attribute-value',
                             univ.Any().subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 1)))
@@ -774,7 +774,7 @@ id_ce_cRLNumber = univ.ObjectIdentifier('2.5.29.20')
 
 
 class CRLNumber(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueSizeConstraint(0, MAX)
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(0, MAX)
 
 
 class BaseCRLNumber(CRLNumber):
@@ -815,7 +815,7 @@ class ReasonFlags(univ.BitString):
 
 
 class SkipCerts(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueSizeConstraint(0, MAX)
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(0, MAX)
 
 
 id_ce_policyConstraints = univ.ObjectIdentifier('2.5.29.36')
-- 
2.43.0


From b9b26c429356b1eef01f44e211e6f51c055024ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 04/37] fix: rfc3280.DirectoryString is the string CHOICE again

A second definition, CHOICE { any ANY }, shadowed the real one under the
exported name.
---
 pyasn1_modules/rfc3280.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pyasn1_modules/rfc3280.py b/pyasn1_modules/rfc3280.py
index 4c6df13..5a54e13 100644
--- a/pyasn1_modules/rfc3280.py
+++ b/pyasn1_modules/rfc3280.py
@@ -1363,14 +1363,6 @@ id_ce_certificateIssuer = _OID(id_ce, 29)
 id_ce_invalidityDate = _OID(id_ce, 24)
 
 
-class DirectoryString(univ.Choice):
-    pass
-
-
-DirectoryString.componentType = namedtype.NamedTypes(
-    namedtype.NamedType('any', univ.Any())
-)
-
 id_ce_authorityKeyIdentifier = _OID(id_ce, 35)
 
 
-- 
2.43.0


From 17976b0be23533a97ec69982b279439bd12b0c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 05/37] fix: tag extendedFailInfo [1] in
 rfc6402.CMCStatusInfoV2

Untagged it collides with pendInfo, also a SEQUENCE, and no value of
CMCStatusInfoV2 could be decoded (AttributeError) when otherInfo was allowed.
---
 pyasn1_modules/rfc6402.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc6402.py b/pyasn1_modules/rfc6402.py
index 5490b05..d24e2ce 100644
--- a/pyasn1_modules/rfc6402.py
+++ b/pyasn1_modules/rfc6402.py
@@ -151,7 +151,7 @@ CMCStatusInfoV2.componentType = namedtype.NamedTypes(
                     componentType=namedtype.NamedTypes(
                         namedtype.NamedType('failInfoOID', univ.ObjectIdentifier()),
                         namedtype.NamedType('failInfoValue', AttributeValue()))
-                    )
+                    ).subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))
                 )
             )
         )
-- 
2.43.0


From 6e7f52b4f436e448309be1ecd6b6d83f096a7110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:41 +0000
Subject: [PATCH 06/37] fix: apply the SIZE of rfc4210.PKIHeader.generalInfo to
 the collection

It was put on the element type, so that an empty generalInfo was accepted.
---
 pyasn1_modules/rfc4210.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyasn1_modules/rfc4210.py b/pyasn1_modules/rfc4210.py
index 0935e3e..4cdf63d 100644
--- a/pyasn1_modules/rfc4210.py
+++ b/pyasn1_modules/rfc4210.py
@@ -742,10 +742,9 @@ class PKIHeader(univ.Sequence):
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 7))),
         namedtype.OptionalNamedType('generalInfo',
                                     univ.SequenceOf(
-                                        componentType=InfoTypeAndValue().subtype(
-                                            sizeSpec=constraint.ValueSizeConstraint(1, MAX)
-                                        )
+                                        componentType=InfoTypeAndValue()
                                     ).subtype(
+            sizeSpec=constraint.ValueSizeConstraint(1, MAX),
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 8))
         )
     )
-- 
2.43.0


From f2e4b1ae0f12f61966ba33b97374a7eecc730eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 07/37] fix: rfc7292.BAG_TYPE resolves its value by its id
 component

---
 pyasn1_modules/rfc7292.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc7292.py b/pyasn1_modules/rfc7292.py
index 1c9f319..3063d1b 100644
--- a/pyasn1_modules/rfc7292.py
+++ b/pyasn1_modules/rfc7292.py
@@ -142,7 +142,7 @@ class BAG_TYPE(univ.Sequence):
 BAG_TYPE.componentType = namedtype.NamedTypes(
     namedtype.NamedType('id', univ.ObjectIdentifier()),
     namedtype.NamedType('unnamed1', univ.Any(),
-        openType=opentype.OpenType('attrType', pkcs12BagTypeMap)
+        openType=opentype.OpenType('id', pkcs12BagTypeMap)
     )
 )
 
-- 
2.43.0


From ceea8d08c89b4ca04e8fba7418f26375bdfa744b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 08/37] fix: PKCS#12 safeContentsBag holds SafeContents

---
 pyasn1_modules/rfc7292.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc7292.py b/pyasn1_modules/rfc7292.py
index 3063d1b..5622ac3 100644
--- a/pyasn1_modules/rfc7292.py
+++ b/pyasn1_modules/rfc7292.py
@@ -312,7 +312,7 @@ _pkcs12BagTypeMap = {
     id_certBag: CertBag(),
     id_CRLBag: CRLBag(),
     id_secretBag: SecretBag(),
-    id_safeContentsBag: SafeBag(),
+    id_safeContentsBag: SafeContents(),
 }
 
 pkcs12BagTypeMap.update(_pkcs12BagTypeMap)
-- 
2.43.0


From 83efa4f1a872e6fce3b2389673d760ad049e4712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:55 +0000
Subject: [PATCH 09/37] fix: enforce the SIZE of rfc4334.SSID

---
 pyasn1_modules/rfc4334.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc4334.py b/pyasn1_modules/rfc4334.py
index 44cd31b..8a7a1c7 100644
--- a/pyasn1_modules/rfc4334.py
+++ b/pyasn1_modules/rfc4334.py
@@ -42,7 +42,7 @@ id_kp_eapOverLAN = id_kp + (14, )
 id_pe_wlanSSID = id_pe + (13, )
 
 class SSID(univ.OctetString):
-    constraint.ValueSizeConstraint(1, 32)
+    subtypeSpec = constraint.ValueSizeConstraint(1, 32)
 
 
 class SSIDList(univ.SequenceOf):
-- 
2.43.0


From 07acb9feee3e9a9b5edb33f866a2566204257dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:18 +0000
Subject: [PATCH 10/37] fix: placeOfBirth and pseudonym of RFC 2985 are limited
 by ub-name, not 255

---
 pyasn1_modules/rfc2985.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyasn1_modules/rfc2985.py b/pyasn1_modules/rfc2985.py
index 75bccf0..08e1861 100644
--- a/pyasn1_modules/rfc2985.py
+++ b/pyasn1_modules/rfc2985.py
@@ -55,6 +55,8 @@ Time = rfc5280.Time
 
 X520countryName = rfc5280.X520countryName
 
+X520name = rfc5280.X520name
+
 X520SerialNumber = rfc5280.X520SerialNumber
 
 
@@ -324,7 +326,7 @@ pkcs_9_at_placeOfBirth = _OID(ietf_at, 2)
 
 placeOfBirth = SingleAttribute()
 placeOfBirth['type'] = pkcs_9_at_placeOfBirth
-placeOfBirth['values'][0] = DirectoryString()
+placeOfBirth['values'][0] = X520name()  # DirectoryString { ub-name }
 
 
 # Gender
@@ -367,7 +369,7 @@ id_at_pseudonym = _OID(2, 5, 4, 65)
 
 pseudonym = Attribute()
 pseudonym['type'] = id_at_pseudonym
-pseudonym['values'][0] = DirectoryString()
+pseudonym['values'][0] = X520name()  # DirectoryString { ub-name }
 
 
 # Serial number
@@ -548,11 +550,11 @@ _certificateAttributesMapUpdate = {
     pkcs_9_at_unstructuredName: PKCS9String(),
     pkcs_9_at_unstructuredAddress: DirectoryString(),
     pkcs_9_at_dateOfBirth: useful.GeneralizedTime(),
-    pkcs_9_at_placeOfBirth: DirectoryString(),
+    pkcs_9_at_placeOfBirth: X520name(),
     pkcs_9_at_gender: GenderString(),
     pkcs_9_at_countryOfCitizenship: X520countryName(),
     pkcs_9_at_countryOfResidence: X520countryName(),
-    id_at_pseudonym: DirectoryString(),
+    id_at_pseudonym: X520name(),
     id_at_serialNumber: X520SerialNumber(),
     # Attribute types for use with PKCS #10 certificate requests
     pkcs_9_at_challengePassword: DirectoryString(),
-- 
2.43.0


From 67ff9fd79c0b94040d92d18328073319e6584991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:50 +0000
Subject: [PATCH 11/37] fix: fill aa_keyUse and aa_otherCertificateFormats of
 RFC 7906, not their neighbours

---
 pyasn1_modules/rfc7906.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyasn1_modules/rfc7906.py b/pyasn1_modules/rfc7906.py
index fa5f6b0..4111693 100644
--- a/pyasn1_modules/rfc7906.py
+++ b/pyasn1_modules/rfc7906.py
@@ -403,8 +403,8 @@ KeyUse.namedValues = namedval.NamedValues(
 
 
 aa_keyUse = Attribute()
-aa_keyPurpose['attrType'] = id_kma_keyUse
-aa_keyPurpose['attrValues'][0] = KeyUse()
+aa_keyUse['attrType'] = id_kma_keyUse
+aa_keyUse['attrValues'][0] = KeyUse()
 
 
 # Transport Key Attribute
@@ -615,8 +615,8 @@ id_kma_otherCertFormats = univ.ObjectIdentifier('2.16.840.1.101.2.1.13.19')
 
 
 aa_otherCertificateFormats = Attribute()
-aa_signatureUsage_v3['attrType'] = id_kma_otherCertFormats
-aa_signatureUsage_v3['attrValues'][0] = CertificateChoices()
+aa_otherCertificateFormats['attrType'] = id_kma_otherCertFormats
+aa_otherCertificateFormats['attrValues'][0] = CertificateChoices()
 
 
 # PKI Path Attribute
-- 
2.43.0


From 9e17e9879de93c1b2c156f0c2471b5744e66f577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 12/37] fix: rfc2315.AttributeValueAssertion resolves its value
 by its attributeType component

---
 pyasn1_modules/rfc2315.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc2315.py b/pyasn1_modules/rfc2315.py
index 1069fc2..b0cb5cd 100644
--- a/pyasn1_modules/rfc2315.py
+++ b/pyasn1_modules/rfc2315.py
@@ -26,7 +26,7 @@ class AttributeValueAssertion(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('attributeType', AttributeType()),
         namedtype.NamedType('attributeValue', AttributeValue(),
-                            openType=opentype.OpenType('type', certificateAttributesMap))
+                            openType=opentype.OpenType('attributeType', certificateAttributesMap))
     )
 
 
-- 
2.43.0


From be608a383426c9f5ae8a920595d02be95b9e03d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 13/37] fix: readPemBlocksFromFile ignored the end marker of
 all but the last pair sharing it

---
 pyasn1_modules/pem.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyasn1_modules/pem.py b/pyasn1_modules/pem.py
index f7c80a9..0bd749f 100644
--- a/pyasn1_modules/pem.py
+++ b/pyasn1_modules/pem.py
@@ -15,8 +15,6 @@ stSpam, stHam, stDump = 0, 1, 2
 def readPemBlocksFromFile(fileObj, *markers):
     startMarkers = dict(map(lambda x: (x[1], x[0]),
                             enumerate(map(lambda y: y[0], markers))))
-    stopMarkers = dict(map(lambda x: (x[1], x[0]),
-                           enumerate(map(lambda y: y[1], markers))))
     idx = -1
     substrate = ''
     certLines = []
@@ -33,7 +31,7 @@ def readPemBlocksFromFile(fileObj, *markers):
                 state = stHam
                 continue
         if state == stHam:
-            if certLine in stopMarkers and stopMarkers[certLine] == idx:
+            if certLine == markers[idx][1]:
                 state = stDump
             else:
                 certLines.append(certLine)
-- 
2.43.0


From c81b45f5e5cb26215a7b3de904e7f80dea5a0763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 14/37] fix: tools/ocspclient.py could not start with the
 pyasn1 releases the package requires

---
 tools/ocspclient.py | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/tools/ocspclient.py b/tools/ocspclient.py
index 84f06fb..11f4472 100755
--- a/tools/ocspclient.py
+++ b/tools/ocspclient.py
@@ -14,6 +14,7 @@ try:
 except ImportError:
     import urllib.request as urllib2
 
+from pyasn1.codec.ber.encoder import BitStringEncoder
 from pyasn1.codec.der import decoder
 from pyasn1.codec.der import encoder
 from pyasn1.type import univ
@@ -25,26 +26,11 @@ from pyasn1_modules import pem
 sha1oid = univ.ObjectIdentifier((1, 3, 14, 3, 2, 26))
 
 
-# noinspection PyClassHasNoInit
-class ValueOnlyBitStringEncoder(encoder.encoder.BitStringEncoder):
-    # These methods just do not encode tag and length fields of TLV
-    def encodeTag(self, *args):
-        return ''
-
-    def encodeLength(self, *args):
-        return ''
-
-    def encodeValue(*args):
-        substrate, isConstructed = encoder.encoder.BitStringEncoder.encodeValue(*args)
-        # OCSP-specific hack follows: cut off the "unused bit count"
-        # encoded bit-string value.
-        return substrate[1:], isConstructed
-
-    def __call__(self, bitStringValue):
-        return self.encode(None, bitStringValue, defMode=True, maxChunkSize=0)
-
-
-valueOnlyBitStringEncoder = ValueOnlyBitStringEncoder()
+def valueOnlyBitStringEncoder(bitStringValue):
+    substrate, _, _ = BitStringEncoder().encodeValue(bitStringValue, None, None)
+    # OCSP-specific hack follows: cut off the "unused bit count"
+    # encoded bit-string value.
+    return substrate[1:]
 
 
 # noinspection PyShadowingNames
-- 
2.43.0


From 2262263bbc51e0a1f712fed9741e40167fec7370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 15/37] fix: tools/cmcdump.py looped forever on content other
 than PKIData

---
 tools/cmcdump.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/cmcdump.py b/tools/cmcdump.py
index d16774d..94bc223 100755
--- a/tools/cmcdump.py
+++ b/tools/cmcdump.py
@@ -59,3 +59,7 @@ while next_layer:
 
         next_layer = None
         data = None
+
+    else:
+        print(" * Not decoding layer: %s" % next_layer)
+        break
-- 
2.43.0


From 3281a8c99c6630dd281152cb910075a6047e8628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:52 +0000
Subject: [PATCH 16/37] fix: the BOOLEANs of rfc2459.IssuingDistributionPoint
 are DEFAULT FALSE

They were required, so that an issuing distribution point in DER could not be
decoded unless it set all three.
---
 pyasn1_modules/rfc2459.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index 1cce106..b3c5451 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -1135,13 +1135,13 @@ class IssuingDistributionPoint(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.OptionalNamedType('distributionPoint', DistributionPointName().subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))),
-        namedtype.NamedType('onlyContainsUserCerts', univ.Boolean(False).subtype(
+        namedtype.DefaultedNamedType('onlyContainsUserCerts', univ.Boolean(False).subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 1))),
-        namedtype.NamedType('onlyContainsCACerts', univ.Boolean(False).subtype(
+        namedtype.DefaultedNamedType('onlyContainsCACerts', univ.Boolean(False).subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 2))),
         namedtype.OptionalNamedType('onlySomeReasons', ReasonFlags().subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 3))),
-        namedtype.NamedType('indirectCRL', univ.Boolean(False).subtype(
+        namedtype.DefaultedNamedType('indirectCRL', univ.Boolean(False).subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 4)))
     )
 
-- 
2.43.0


From 32815ffa981559608849cc1fc9a1b73d585897fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:52 +0000
Subject: [PATCH 17/37] fix: rfc2459.PresentationAddress.nAddresses is required

---
 pyasn1_modules/rfc2459.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index b3c5451..d37a638 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -383,7 +383,7 @@ class PresentationAddress(univ.Sequence):
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 1))),
         namedtype.OptionalNamedType('tSelector', univ.OctetString().subtype(
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 2))),
-        namedtype.OptionalNamedType('nAddresses', univ.SetOf(componentType=univ.OctetString()).subtype(
+        namedtype.NamedType('nAddresses', univ.SetOf(componentType=univ.OctetString()).subtype(
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 3),
             subtypeSpec=constraint.ValueSizeConstraint(1, MAX))),
     )
-- 
2.43.0


From 6df1b94353051f9dc5de514c4e9bd42f89069148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:52 +0000
Subject: [PATCH 18/37] fix: spell teletex(4) of rfc2459.TerminalType as RFC
 2459 does

---
 pyasn1_modules/rfc2459.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index d37a638..6386ba1 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -367,7 +367,7 @@ class TerminalType(univ.Integer):
     subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(0, ub_integer_options)
     namedValues = namedval.NamedValues(
         ('telex', 3),
-        ('teletelex', 4),
+        ('teletex', 4),
         ('g3-facsimile', 5),
         ('g4-facsimile', 6),
         ('ia5-terminal', 7),
-- 
2.43.0


From 94f56cd4cef609371076a35a22be12b1b86ad939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:52 +0000
Subject: [PATCH 19/37] fix: apply three SIZE constraints of RFC 2459

RelativeDistinguishedName and TeletexDomainDefinedAttribute.value had none, and
that of UnformattedPostalAddress.printable-address was put on its elements.
---
 pyasn1_modules/rfc2459.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index 6386ba1..4b7336c 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -351,7 +351,8 @@ class TeletexDomainDefinedAttribute(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('type', char.TeletexString().subtype(
             subtypeSpec=constraint.ValueSizeConstraint(1, ub_domain_defined_attribute_type_length))),
-        namedtype.NamedType('value', char.TeletexString())
+        namedtype.NamedType('value', char.TeletexString().subtype(
+            subtypeSpec=constraint.ValueSizeConstraint(1, ub_domain_defined_attribute_value_length)))
     )
 
 
@@ -457,8 +458,8 @@ class StreetAddress(PDSParameter):
 class UnformattedPostalAddress(univ.Set):
     componentType = namedtype.NamedTypes(
         namedtype.OptionalNamedType('printable-address', univ.SequenceOf(componentType=char.PrintableString().subtype(
-            subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_parameter_length)).subtype(
-            subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_physical_address_lines)))),
+            subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_parameter_length))).subtype(
+            sizeSpec=constraint.ValueSizeConstraint(1, ub_pds_physical_address_lines))),
         namedtype.OptionalNamedType('teletex-string', char.TeletexString().subtype(
             subtypeSpec=constraint.ValueSizeConstraint(1, ub_unformatted_address_length)))
     )
@@ -1032,6 +1033,7 @@ class SubjectDirectoryAttributes(univ.SequenceOf):
 
 class RelativeDistinguishedName(univ.SetOf):
     componentType = AttributeTypeAndValue()
+    sizeSpec = univ.SetOf.sizeSpec + constraint.ValueSizeConstraint(1, MAX)
 
 
 class RDNSequence(univ.SequenceOf):
-- 
2.43.0


From 83d8c14abeb0aa900b013b646978acf68dfb9aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 20/37] fix: apply three SIZE constraints of RFC 3280 and RFC
 5280

nAddresses, printable-address and policyQualifiers could have any number of
elements.
---
 pyasn1_modules/rfc3280.py | 9 ++++++---
 pyasn1_modules/rfc5280.py | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/pyasn1_modules/rfc3280.py b/pyasn1_modules/rfc3280.py
index 5a54e13..33f1ad7 100644
--- a/pyasn1_modules/rfc3280.py
+++ b/pyasn1_modules/rfc3280.py
@@ -118,7 +118,8 @@ PresentationAddress.componentType = namedtype.NamedTypes(
     namedtype.OptionalNamedType('tSelector', univ.OctetString().subtype(
         explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 2))),
     namedtype.NamedType('nAddresses', univ.SetOf(componentType=univ.OctetString()).subtype(
-        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 3)))
+        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 3),
+        sizeSpec=constraint.ValueSizeConstraint(1, MAX)))
 )
 
 
@@ -984,7 +985,8 @@ class UnformattedPostalAddress(univ.Set):
 
 UnformattedPostalAddress.componentType = namedtype.NamedTypes(
     namedtype.OptionalNamedType('printable-address', univ.SequenceOf(componentType=char.PrintableString().subtype(
-        subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_parameter_length)))),
+        subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_parameter_length))).subtype(
+        sizeSpec=constraint.ValueSizeConstraint(1, ub_pds_physical_address_lines))),
     namedtype.OptionalNamedType('teletex-string', char.TeletexString().subtype(
         subtypeSpec=constraint.ValueSizeConstraint(1, ub_unformatted_address_length)))
 )
@@ -1189,7 +1191,8 @@ class PolicyInformation(univ.Sequence):
 
 PolicyInformation.componentType = namedtype.NamedTypes(
     namedtype.NamedType('policyIdentifier', CertPolicyId()),
-    namedtype.OptionalNamedType('policyQualifiers', univ.SequenceOf(componentType=PolicyQualifierInfo()))
+    namedtype.OptionalNamedType('policyQualifiers', univ.SequenceOf(componentType=PolicyQualifierInfo()).subtype(
+        sizeSpec=constraint.ValueSizeConstraint(1, MAX)))
 )
 
 
diff --git a/pyasn1_modules/rfc5280.py b/pyasn1_modules/rfc5280.py
index ed5d28f..1358d35 100644
--- a/pyasn1_modules/rfc5280.py
+++ b/pyasn1_modules/rfc5280.py
@@ -92,7 +92,8 @@ class UnformattedPostalAddress(univ.Set):
 
 UnformattedPostalAddress.componentType = namedtype.NamedTypes(
     namedtype.OptionalNamedType('printable-address', univ.SequenceOf(componentType=char.PrintableString().subtype(
-        subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_parameter_length)))),
+        subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_parameter_length))).subtype(
+        sizeSpec=constraint.ValueSizeConstraint(1, ub_pds_physical_address_lines))),
     namedtype.OptionalNamedType('teletex-string', char.TeletexString().subtype(
         subtypeSpec=constraint.ValueSizeConstraint(1, ub_unformatted_address_length)))
 )
@@ -591,7 +592,8 @@ PresentationAddress.componentType = namedtype.NamedTypes(
     namedtype.OptionalNamedType('tSelector', univ.OctetString().subtype(
         explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 2))),
     namedtype.NamedType('nAddresses', univ.SetOf(componentType=univ.OctetString()).subtype(
-        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 3)))
+        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 3),
+        sizeSpec=constraint.ValueSizeConstraint(1, MAX)))
 )
 
 
@@ -1356,7 +1358,8 @@ class PolicyInformation(univ.Sequence):
 
 PolicyInformation.componentType = namedtype.NamedTypes(
     namedtype.NamedType('policyIdentifier', CertPolicyId()),
-    namedtype.OptionalNamedType('policyQualifiers', univ.SequenceOf(componentType=PolicyQualifierInfo()))
+    namedtype.OptionalNamedType('policyQualifiers', univ.SequenceOf(componentType=PolicyQualifierInfo()).subtype(
+        sizeSpec=constraint.ValueSizeConstraint(1, MAX)))
 )
 
 
-- 
2.43.0


From e551b355257bacf7e433438e890b8256b38ee7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 21/37] fix: limit TerminalType of RFC 3280 and RFC 5280 to
 ub-integer-options

---
 pyasn1_modules/rfc3280.py | 5 +++--
 pyasn1_modules/rfc5280.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyasn1_modules/rfc3280.py b/pyasn1_modules/rfc3280.py
index 33f1ad7..0332c86 100644
--- a/pyasn1_modules/rfc3280.py
+++ b/pyasn1_modules/rfc3280.py
@@ -768,6 +768,8 @@ X520name.componentType = namedtype.NamedTypes(
 
 id_emailAddress = _OID(pkcs_9, 1)
 
+ub_integer_options = univ.Integer(256)
+
 
 class TerminalType(univ.Integer):
     pass
@@ -781,6 +783,7 @@ TerminalType.namedValues = namedval.NamedValues(
     ('ia5-terminal', 7),
     ('videotex', 8)
 )
+TerminalType.subtypeSpec = constraint.ValueRangeConstraint(0, ub_integer_options)
 
 
 class X520OrganizationalUnitName(univ.Choice):
@@ -883,8 +886,6 @@ id_at_serialNumber = _OID(id_at, 5)
 
 id_ad_caIssuers = _OID(id_ad, 2)
 
-ub_integer_options = univ.Integer(256)
-
 
 class CertificateList(univ.Sequence):
     pass
diff --git a/pyasn1_modules/rfc5280.py b/pyasn1_modules/rfc5280.py
index 1358d35..165e8a8 100644
--- a/pyasn1_modules/rfc5280.py
+++ b/pyasn1_modules/rfc5280.py
@@ -44,6 +44,8 @@ ub_e163_4_number_length = univ.Integer(15)
 
 unformatted_postal_address = univ.Integer(16)
 
+ub_integer_options = univ.Integer(256)
+
 
 class TerminalType(univ.Integer):
     pass
@@ -57,6 +59,7 @@ TerminalType.namedValues = namedval.NamedValues(
     ('ia5-terminal', 7),
     ('videotex', 8)
 )
+TerminalType.subtypeSpec = constraint.ValueRangeConstraint(0, ub_integer_options)
 
 
 class Extension(univ.Sequence):
@@ -517,8 +520,6 @@ class NetworkAddress(X121Address):
     pass
 
 
-ub_integer_options = univ.Integer(256)
-
 id_at_commonName = _buildOid(id_at, 3)
 
 ub_organization_name_length = univ.Integer(64)
-- 
2.43.0


From 85a3135205398234aba94e6ca027193abd39b6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 22/37] fix: tag the SNMPv1 Trap-PDU [4]

It had the tag of a plain SEQUENCE, so that no trap could be decoded.
---
 pyasn1_modules/rfc1157.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyasn1_modules/rfc1157.py b/pyasn1_modules/rfc1157.py
index df49e48..e44eed3 100644
--- a/pyasn1_modules/rfc1157.py
+++ b/pyasn1_modules/rfc1157.py
@@ -95,6 +95,9 @@ class SetRequestPDU(_RequestBase):
 
 
 class TrapPDU(univ.Sequence):
+    tagSet = univ.Sequence.tagSet.tagImplicitly(
+        tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 4)
+    )
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('enterprise', univ.ObjectIdentifier()),
         namedtype.NamedType('agent-addr', rfc1155.NetworkAddress()),
-- 
2.43.0


From ed172c5cfab29a3a8fd712c77b30e2d0c83ec610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 23/37] fix: an LDAP DelRequest is an LDAPDN, not an LDAPResult

---
 pyasn1_modules/rfc2251.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyasn1_modules/rfc2251.py b/pyasn1_modules/rfc2251.py
index 8a5e2f0..33acf9f 100644
--- a/pyasn1_modules/rfc2251.py
+++ b/pyasn1_modules/rfc2251.py
@@ -418,9 +418,9 @@ class AddResponse(LDAPResult):
     )
 
 
-class DelRequest(LDAPResult):
-    tagSet = univ.Sequence.tagSet.tagImplicitly(
-        tag.Tag(tag.tagClassApplication, tag.tagFormatConstructed, 10)
+class DelRequest(LDAPDN):
+    tagSet = LDAPDN.tagSet.tagImplicitly(
+        tag.Tag(tag.tagClassApplication, tag.tagFormatSimple, 10)
     )
 
 
-- 
2.43.0


From c60eb894f161a9d75a3377ce90d8f393d66175b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:47 +0000
Subject: [PATCH 24/37] fix: an LDAP AbandonRequest is a MessageID, not an
 LDAPResult

---
 pyasn1_modules/rfc2251.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyasn1_modules/rfc2251.py b/pyasn1_modules/rfc2251.py
index 33acf9f..12a4a7d 100644
--- a/pyasn1_modules/rfc2251.py
+++ b/pyasn1_modules/rfc2251.py
@@ -466,9 +466,15 @@ class CompareResponse(LDAPResult):
     )
 
 
-class AbandonRequest(LDAPResult):
-    tagSet = univ.Sequence.tagSet.tagImplicitly(
-        tag.Tag(tag.tagClassApplication, tag.tagFormatConstructed, 16)
+class MessageID(univ.Integer):
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(
+        0, maxInt
+    )
+
+
+class AbandonRequest(MessageID):
+    tagSet = MessageID.tagSet.tagImplicitly(
+        tag.Tag(tag.tagClassApplication, tag.tagFormatSimple, 16)
     )
 
 
@@ -523,12 +529,6 @@ class ExtendedResponse(univ.Sequence):
     )
 
 
-class MessageID(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(
-        0, maxInt
-    )
-
-
 class LDAPMessage(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('messageID', MessageID()),
-- 
2.43.0


From 00d98cac183033a0a057640db4356eba3b9f18f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:47 +0000
Subject: [PATCH 25/37] fix: GeneralName of RFC 2511 is that of RFC 2459

It was a placeholder, an OCTET STRING.
---
 pyasn1_modules/rfc2511.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pyasn1_modules/rfc2511.py b/pyasn1_modules/rfc2511.py
index 8935cda..a3db446 100644
--- a/pyasn1_modules/rfc2511.py
+++ b/pyasn1_modules/rfc2511.py
@@ -30,14 +30,6 @@ id_regInfo_utf8Pairs = univ.ObjectIdentifier('1.3.6.1.5.5.7.5.2.1')
 id_regInfo_certReq = univ.ObjectIdentifier('1.3.6.1.5.5.7.5.2.2')
 
 
-# This should be in PKIX Certificate Extensions module
-
-class GeneralName(univ.OctetString):
-    pass
-
-
-# end of PKIX Certificate Extensions module
-
 class UTF8Pairs(char.UTF8String):
     pass
 
-- 
2.43.0


From c5205537c08f9ce8ab685d32b5845bb4ff962e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:47 +0000
Subject: [PATCH 26/37] fix: GeneralName of RFC 2560 is that of RFC 2459

It was a placeholder, an OCTET STRING: requests with a requestorName could
not be decoded.
---
 pyasn1_modules/rfc2560.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pyasn1_modules/rfc2560.py b/pyasn1_modules/rfc2560.py
index 017ac0b..6192879 100644
--- a/pyasn1_modules/rfc2560.py
+++ b/pyasn1_modules/rfc2560.py
@@ -51,13 +51,7 @@ class CRLReason(univ.Enumerated):
 
 # end of directory Authentication Framework (X.509) module
 
-# This should be in PKIX Certificate Extensions module
-
-class GeneralName(univ.OctetString):
-    pass
-
-
-# end of PKIX Certificate Extensions module
+GeneralName = rfc2459.GeneralName
 
 id_kp_OCSPSigning = univ.ObjectIdentifier((1, 3, 6, 1, 5, 5, 7, 3, 9))
 id_pkix_ocsp = univ.ObjectIdentifier((1, 3, 6, 1, 5, 5, 7, 48, 1))
-- 
2.43.0


From 074530dc385ee06fd25b52ac716071afe01b5745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:47 +0000
Subject: [PATCH 27/37] fix: digestAlgorithms and signerInfos of PKCS#7
 SignedData are required

Where they were empty, as in a file of certificates only, they were lost when
the message was encoded again.
---
 pyasn1_modules/rfc2315.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc2315.py b/pyasn1_modules/rfc2315.py
index b0cb5cd..177619e 100644
--- a/pyasn1_modules/rfc2315.py
+++ b/pyasn1_modules/rfc2315.py
@@ -269,13 +269,13 @@ class DigestInfo(univ.Sequence):
 class SignedData(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('version', Version()),
-        namedtype.OptionalNamedType('digestAlgorithms', DigestAlgorithmIdentifiers()),
+        namedtype.NamedType('digestAlgorithms', DigestAlgorithmIdentifiers()),
         namedtype.NamedType('contentInfo', ContentInfo()),
         namedtype.OptionalNamedType('certificates', ExtendedCertificatesAndCertificates().subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))),
         namedtype.OptionalNamedType('crls', CertificateRevocationLists().subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))),
-        namedtype.OptionalNamedType('signerInfos', SignerInfos())
+        namedtype.NamedType('signerInfos', SignerInfos())
     )
 
 
-- 
2.43.0


From 006d49d0109a154c1e717416ff63e845a2edd45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:18 +0000
Subject: [PATCH 28/37] fix: do not decode the encrypted content of a PKCS#7
 message as its plaintext

encryptedContent holds ciphertext: with decodeOpenTypes most messages could not
be decoded.
---
 pyasn1_modules/rfc2315.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc2315.py b/pyasn1_modules/rfc2315.py
index 177619e..734fea8 100644
--- a/pyasn1_modules/rfc2315.py
+++ b/pyasn1_modules/rfc2315.py
@@ -61,8 +61,7 @@ class EncryptedContentInfo(univ.Sequence):
         namedtype.OptionalNamedType(
             'encryptedContent', EncryptedContent().subtype(
                 implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0)
-            ),
-            openType=opentype.OpenType('contentType', contentTypeMap)
+            )
         )
     )
 
-- 
2.43.0


From 95613308b5283dad822f95655b3e36314c89fe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:59 +0000
Subject: [PATCH 29/37] fix: RSAES-OAEP-params of RFC 2437 has explicit tags

RSAES-OAEP parameters as other implementations, and RFC 3447 and RFC 4055 here,
encode them could not be decoded.
---
 pyasn1_modules/rfc2437.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyasn1_modules/rfc2437.py b/pyasn1_modules/rfc2437.py
index 88641cf..5626360 100644
--- a/pyasn1_modules/rfc2437.py
+++ b/pyasn1_modules/rfc2437.py
@@ -61,9 +61,9 @@ class RSAPublicKey(univ.Sequence):
 class RSAES_OAEP_params(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('hashFunc', AlgorithmIdentifier().subtype(
-            implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))),
+            explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))),
         namedtype.NamedType('maskGenFunc', AlgorithmIdentifier().subtype(
-            implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))),
+            explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))),
         namedtype.NamedType('pSourceFunc', AlgorithmIdentifier().subtype(
-            implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 2)))
+            explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 2)))
     )
-- 
2.43.0


From 63418eeb40af28327f0d881e7d118f2430c891cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:59 +0000
Subject: [PATCH 30/37] fix: the components of RSAES-OAEP-params of RFC 2437
 have defaults

---
 pyasn1_modules/rfc2437.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pyasn1_modules/rfc2437.py b/pyasn1_modules/rfc2437.py
index 5626360..842a00d 100644
--- a/pyasn1_modules/rfc2437.py
+++ b/pyasn1_modules/rfc2437.py
@@ -57,13 +57,20 @@ class RSAPublicKey(univ.Sequence):
     )
 
 
-# XXX defaults not set
+def _defaultIdentifier(algorithm, parameters, number):
+    identifier = AlgorithmIdentifier().subtype(
+        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, number))
+    identifier['algorithm'] = algorithm
+    identifier['parameters'] = univ.Any(hexValue=parameters)
+    return identifier
+
+
 class RSAES_OAEP_params(univ.Sequence):
     componentType = namedtype.NamedTypes(
-        namedtype.NamedType('hashFunc', AlgorithmIdentifier().subtype(
-            explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))),
-        namedtype.NamedType('maskGenFunc', AlgorithmIdentifier().subtype(
-            explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))),
-        namedtype.NamedType('pSourceFunc', AlgorithmIdentifier().subtype(
-            explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 2)))
+        # sha1Identifier
+        namedtype.DefaultedNamedType('hashFunc', _defaultIdentifier(id_sha1, '0500', 0)),
+        # mgf1SHA1Identifier
+        namedtype.DefaultedNamedType('maskGenFunc', _defaultIdentifier(id_mgf1, '300906052b0e03021a0500', 1)),
+        # pSpecifiedEmptyIdentifier
+        namedtype.DefaultedNamedType('pSourceFunc', _defaultIdentifier(id_pSpecified, '0400', 2))
     )
-- 
2.43.0


From 4d4c206eaf1f32e6be1b8df7689378b4c0ff7413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:22 +0000
Subject: [PATCH 31/37] fix: the AlgorithmIdentifiers of RFC 4055 parameters
 have the published defaults

hashFunc, maskGenFunc, pSourceFunc, hashAlgorithm and maskGenAlgorithm were
OPTIONAL: absent components did not read as SHA-1, MGF1 with SHA-1 and the empty
label, and these values were not omitted in DER.
---
 pyasn1_modules/rfc4055.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/pyasn1_modules/rfc4055.py b/pyasn1_modules/rfc4055.py
index bdc1286..5d6780d 100644
--- a/pyasn1_modules/rfc4055.py
+++ b/pyasn1_modules/rfc4055.py
@@ -121,16 +121,24 @@ class MaskGenAlgorithm(rfc5280.AlgorithmIdentifier):
     pass
 
 
+def _defaultIdentifier(algorithm, parameters, number):
+    identifier = rfc5280.AlgorithmIdentifier().subtype(
+        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, number))
+    identifier['algorithm'] = algorithm
+    identifier['parameters'] = univ.Any(hexValue=parameters)
+    return identifier
+
+
 class RSAES_OAEP_params(univ.Sequence):
     pass
 
 RSAES_OAEP_params.componentType = namedtype.NamedTypes(
-    namedtype.OptionalNamedType('hashFunc', rfc5280.AlgorithmIdentifier().subtype(
-        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))),
-    namedtype.OptionalNamedType('maskGenFunc', rfc5280.AlgorithmIdentifier().subtype(
-        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))),
-    namedtype.OptionalNamedType('pSourceFunc', rfc5280.AlgorithmIdentifier().subtype(
-        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 2)))
+    namedtype.DefaultedNamedType('hashFunc', _defaultIdentifier(
+        id_sha1, '0500', 0)),
+    namedtype.DefaultedNamedType('maskGenFunc', _defaultIdentifier(
+        id_mgf1, '300906052b0e03021a0500', 1)),
+    namedtype.DefaultedNamedType('pSourceFunc', _defaultIdentifier(
+        id_pSpecified, '0400', 2))
 )
 
 rSAES_OAEP_Default_Params = RSAES_OAEP_params()
@@ -184,10 +192,10 @@ class RSASSA_PSS_params(univ.Sequence):
     pass
 
 RSASSA_PSS_params.componentType = namedtype.NamedTypes(
-    namedtype.OptionalNamedType('hashAlgorithm', rfc5280.AlgorithmIdentifier().subtype(
-        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))),
-    namedtype.OptionalNamedType('maskGenAlgorithm', rfc5280.AlgorithmIdentifier().subtype(
-        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))),
+    namedtype.DefaultedNamedType('hashAlgorithm', _defaultIdentifier(
+        id_sha1, '0500', 0)),
+    namedtype.DefaultedNamedType('maskGenAlgorithm', _defaultIdentifier(
+        id_mgf1, '300906052b0e03021a0500', 1)),
     namedtype.DefaultedNamedType('saltLength', univ.Integer(value=20).subtype(
         explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 2))),
     namedtype.DefaultedNamedType('trailerField', univ.Integer(value=1).subtype(
-- 
2.43.0


From 54640544dead1809484b9e9c19355208ad1f746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 32/37] fix: apply two SIZE constraints of RFC 4211

---
 pyasn1_modules/rfc4211.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc4211.py b/pyasn1_modules/rfc4211.py
index c47b3c5..aebaec1 100644
--- a/pyasn1_modules/rfc4211.py
+++ b/pyasn1_modules/rfc4211.py
@@ -303,7 +303,8 @@ class CertReqMsg(univ.Sequence):
 CertReqMsg.componentType = namedtype.NamedTypes(
     namedtype.NamedType('certReq', CertRequest()),
     namedtype.OptionalNamedType('popo', ProofOfPossession()),
-    namedtype.OptionalNamedType('regInfo', univ.SequenceOf(componentType=AttributeTypeAndValue()))
+    namedtype.OptionalNamedType('regInfo', univ.SequenceOf(componentType=AttributeTypeAndValue()).subtype(
+        sizeSpec=constraint.ValueSizeConstraint(1, MAX)))
 )
 
 
@@ -343,7 +344,8 @@ class PKIPublicationInfo(univ.Sequence):
 PKIPublicationInfo.componentType = namedtype.NamedTypes(
     namedtype.NamedType('action',
                         univ.Integer(namedValues=namedval.NamedValues(('dontPublish', 0), ('pleasePublish', 1)))),
-    namedtype.OptionalNamedType('pubInfos', univ.SequenceOf(componentType=SinglePubInfo()))
+    namedtype.OptionalNamedType('pubInfos', univ.SequenceOf(componentType=SinglePubInfo()).subtype(
+        sizeSpec=constraint.ValueSizeConstraint(1, MAX)))
 )
 
 
-- 
2.43.0


From dc03c7880b3abe933c36bdc8fdbea0a6c32d009a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 33/37] fix: the attributes of a PKCS#8 PrivateKeyInfo are
 X.501 attributes, not LDAP ones

---
 pyasn1_modules/rfc5208.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc5208.py b/pyasn1_modules/rfc5208.py
index 295fdbf..f2e3e6d 100644
--- a/pyasn1_modules/rfc5208.py
+++ b/pyasn1_modules/rfc5208.py
@@ -11,7 +11,6 @@
 #
 # Sample captures could be obtained with "openssl pkcs8 -topk8" command
 #
-from pyasn1_modules import rfc2251
 from pyasn1_modules.rfc2459 import *
 
 
@@ -39,7 +38,7 @@ class PrivateKey(univ.OctetString):
 
 
 class Attributes(univ.SetOf):
-    componentType = rfc2251.Attribute()
+    componentType = Attribute()
 
 
 class Version(univ.Integer):
-- 
2.43.0


From e1799e40ceb24f2a48a8bff1e46a13e005231885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 34/37] fix: the AES-192 and AES-256 key wrap identifiers of
 rfc5990

---
 pyasn1_modules/rfc5990.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc5990.py b/pyasn1_modules/rfc5990.py
index 281316f..30e32ac 100644
--- a/pyasn1_modules/rfc5990.py
+++ b/pyasn1_modules/rfc5990.py
@@ -194,11 +194,11 @@ aes128_Wrap['algorithm'] = id_aes128_Wrap
 # aes128_Wrap['parameters'] are absent
 
 aes192_Wrap = AlgorithmIdentifier()
-aes192_Wrap['algorithm'] = id_aes128_Wrap
+aes192_Wrap['algorithm'] = id_aes192_Wrap
 # aes192_Wrap['parameters'] are absent
 
 aes256_Wrap = AlgorithmIdentifier()
-aes256_Wrap['algorithm'] = id_sha256
+aes256_Wrap['algorithm'] = id_aes256_Wrap
 # aes256_Wrap['parameters'] are absent
 
 tdes_Wrap = AlgorithmIdentifier()
-- 
2.43.0


From 210dfeebcaf7cd1ba343382f488d292822a0ad43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 35/37] fix: apply the SIZE constraints of the body lists of
 RFC 6402

---
 pyasn1_modules/rfc6402.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyasn1_modules/rfc6402.py b/pyasn1_modules/rfc6402.py
index d24e2ce..0d2304f 100644
--- a/pyasn1_modules/rfc6402.py
+++ b/pyasn1_modules/rfc6402.py
@@ -139,7 +139,8 @@ class CMCStatusInfoV2(univ.Sequence):
 
 CMCStatusInfoV2.componentType = namedtype.NamedTypes(
     namedtype.NamedType('cMCStatus', CMCStatus()),
-    namedtype.NamedType('bodyList', univ.SequenceOf(componentType=BodyPartReference())),
+    namedtype.NamedType('bodyList', univ.SequenceOf(componentType=BodyPartReference()).subtype(
+        sizeSpec=constraint.ValueSizeConstraint(1, MAX))),
     namedtype.OptionalNamedType('statusString', char.UTF8String()),
     namedtype.OptionalNamedType(
         'otherInfo', univ.Choice(
@@ -203,7 +204,8 @@ class ControlsProcessed(univ.Sequence):
 
 
 ControlsProcessed.componentType = namedtype.NamedTypes(
-    namedtype.NamedType('bodyList', univ.SequenceOf(componentType=BodyPartReference()))
+    namedtype.NamedType('bodyList', univ.SequenceOf(componentType=BodyPartReference()).subtype(
+        sizeSpec=constraint.ValueSizeConstraint(1, MAX)))
 )
 
 
@@ -357,7 +359,8 @@ class CMCStatusInfo(univ.Sequence):
 
 CMCStatusInfo.componentType = namedtype.NamedTypes(
     namedtype.NamedType('cMCStatus', CMCStatus()),
-    namedtype.NamedType('bodyList', univ.SequenceOf(componentType=BodyPartID())),
+    namedtype.NamedType('bodyList', univ.SequenceOf(componentType=BodyPartID()).subtype(
+        sizeSpec=constraint.ValueSizeConstraint(1, MAX))),
     namedtype.OptionalNamedType('statusString', char.UTF8String()),
     namedtype.OptionalNamedType(
         'otherInfo', univ.Choice(
-- 
2.43.0


From 18614c0f5487db92eb575ee1aae2d9586171e166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 36/37] fix: control characters are no part of the
 VisibleString alphabet of HeaderFieldName

---
 pyasn1_modules/rfc7508.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc7508.py b/pyasn1_modules/rfc7508.py
index 6646024..a3fee68 100644
--- a/pyasn1_modules/rfc7508.py
+++ b/pyasn1_modules/rfc7508.py
@@ -44,7 +44,7 @@ class HeaderFieldStatus(univ.Integer):
 class HeaderFieldName(char.VisibleString):
     subtypeSpec = (
         constraint.PermittedAlphabetConstraint(*string.printable) -
-        constraint.PermittedAlphabetConstraint(':')
+        constraint.PermittedAlphabetConstraint(*':\t\n\r\x0b\x0c')
     )
 
 
-- 
2.43.0


From 6742f2433848d07b0e3906eef887aa3b19db3564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:26 +0000
Subject: [PATCH 37/37] fix: the X9.63 KDF scheme identifiers of rfc8418

The dhSinglePass-stdDH-sha*kdf-scheme identifiers are {secg-scheme 11 n},
that is 1.3.132.1.11.n as RFC 5753 defines and RFC 8418 repeats them; the
arc of the X9.63 schemes, under which they were placed, has no such objects.
---
 pyasn1_modules/rfc8418.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyasn1_modules/rfc8418.py b/pyasn1_modules/rfc8418.py
index 6e76487..5102743 100644
--- a/pyasn1_modules/rfc8418.py
+++ b/pyasn1_modules/rfc8418.py
@@ -23,11 +23,11 @@ class KeyWrapAlgorithmIdentifier(rfc5280.AlgorithmIdentifier):
     pass
 
 
-dhSinglePass_stdDH_sha256kdf_scheme = univ.ObjectIdentifier('1.3.133.16.840.63.0.11.1')
+dhSinglePass_stdDH_sha256kdf_scheme = univ.ObjectIdentifier('1.3.132.1.11.1')
 
-dhSinglePass_stdDH_sha384kdf_scheme = univ.ObjectIdentifier('1.3.133.16.840.63.0.11.2')
+dhSinglePass_stdDH_sha384kdf_scheme = univ.ObjectIdentifier('1.3.132.1.11.2')
 
-dhSinglePass_stdDH_sha512kdf_scheme = univ.ObjectIdentifier('1.3.133.16.840.63.0.11.3')
+dhSinglePass_stdDH_sha512kdf_scheme = univ.ObjectIdentifier('1.3.132.1.11.3')
 
 dhSinglePass_stdDH_hkdf_sha256_scheme = univ.ObjectIdentifier('1.2.840.113549.1.9.16.3.19')
 
-- 
2.43.0

