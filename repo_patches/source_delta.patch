From 7c43de82a56df9a4e60bc9f7711f0ae67f635c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 01/31] fix: signing block pairs with an empty value no longer
 end the block

bytes.Reader.Read returns io.EOF for an empty read at the end, so a last
pair without a value made the whole signing block be reported as missing.
---
 signingblock/signingblock.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index 6054709..d24f634 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -494,7 +494,7 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 		switch bid := BlockId(id); bid {
 		case blockIdSchemeV2, blockIdSchemeV3, blockIdSchemeV31:
 			block := make([]byte, entryLen-4)
-			if _, err = pairs.Read(block); err != nil {
+			if _, err = io.ReadFull(pairs, block); err != nil {
 				return
 			}
 
@@ -517,7 +517,7 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 			// for verity signature verification.
 		case blockIdFrosting:
 			frostingBlock := make([]byte, entryLen-4)
-			if _, err = pairs.Read(frostingBlock); err != nil {
+			if _, err = io.ReadFull(pairs, frostingBlock); err != nil {
 				return
 			}
 
@@ -532,13 +532,13 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 			}
 		case blockIdSourceStampV2:
 			block := make([]byte, entryLen-4)
-			if _, err = pairs.Read(block); err != nil {
+			if _, err = io.ReadFull(pairs, block); err != nil {
 				return
 			}
 			blocks[bid] = block
 		default:
 			block := make([]byte, entryLen-4)
-			if _, err = pairs.Read(block); err != nil {
+			if _, err = io.ReadFull(pairs, block); err != nil {
 				return
 			}
 			if res.ExtraBlocks == nil {
-- 
2.43.0


From b4103a77374e361126160b87d9cdc7bbba5d8909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:16 +0000
Subject: [PATCH 02/31] fix: use the first signing block pair with a given ID,
 as Android does

The last one replaced it, so the signer reported for an APK could differ
from the one Android installs it with.
---
 signingblock/signingblock.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index d24f634..a4ec428 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -463,6 +463,7 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 	entryCount := 0
 
 	blocks = make(map[BlockId][]byte)
+	seen := make(map[BlockId]bool)
 	for pairs.Len() > 0 {
 		entryCount++
 
@@ -491,7 +492,17 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 			return
 		}
 
-		switch bid := BlockId(id); bid {
+		bid := BlockId(id)
+		if seen[bid] {
+			// Android uses the first pair with a given ID.
+			if _, err = pairs.Seek(nextEntryPos, io.SeekStart); err != nil {
+				return
+			}
+			continue
+		}
+		seen[bid] = true
+
+		switch bid {
 		case blockIdSchemeV2, blockIdSchemeV3, blockIdSchemeV31:
 			block := make([]byte, entryLen-4)
 			if _, err = io.ReadFull(pairs, block); err != nil {
-- 
2.43.0


From 0e6c8d8d824e550aad0076987fe42378caa52aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:18 +0000
Subject: [PATCH 03/31] fix: report mismatched keys and malformed signatures
 instead of panicking

verifySignature panicked when the key's type did not fit the signature
algorithm, when an (EC)DSA signature held fewer than two values, and for
DSA keys with a Q longer than 256 bits.
---
 signingblock/utils.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/signingblock/utils.go b/signingblock/utils.go
index 6be7bd1..fcbdde3 100644
--- a/signingblock/utils.go
+++ b/signingblock/utils.go
@@ -37,6 +37,22 @@ func getLenghtPrefixedSlice(r *bytes.Buffer) (*bytes.Buffer, error) {
 }
 
 func verifySignature(publicKey interface{}, algo SignatureAlgorithm, signedDataBytes, signature []byte) error {
+	switch algo {
+	case SigRsaPssWithSha256, SigRsaPssWithSha512,
+		SigRsaPkcs1V15WithSha256, SigRsaPkcs1V15WithSha512, SigVerityRsaPkcs1V15WithSha256:
+		if _, ok := publicKey.(*rsa.PublicKey); !ok {
+			return fmt.Errorf("%s signature with a key of type %T", algo, publicKey)
+		}
+	case SigEcdsaWithSha256, SigEcdsaWithSha512, SigVerityEcdsaWithSha256:
+		if _, ok := publicKey.(*ecdsa.PublicKey); !ok {
+			return fmt.Errorf("%s signature with a key of type %T", algo, publicKey)
+		}
+	case SigDsaWithSha256, SigVerityDsaWithSha256:
+		if _, ok := publicKey.(*dsa.PublicKey); !ok {
+			return fmt.Errorf("%s signature with a key of type %T", algo, publicKey)
+		}
+	}
+
 	switch algo {
 	case SigRsaPssWithSha256:
 		hashed := sha256.Sum256(signedDataBytes)
@@ -58,6 +74,8 @@ func verifySignature(publicKey interface{}, algo SignatureAlgorithm, signedDataB
 		var params []*big.Int
 		if _, err := asn1.Unmarshal(signature, &params); err != nil {
 			return fmt.Errorf("failed to unmarshal ECDSA signature: %s", err.Error())
+		} else if len(params) != 2 {
+			return fmt.Errorf("ECDSA or DSA signature with %d values", len(params))
 		}
 
 		var hashed []byte
@@ -74,7 +92,9 @@ func verifySignature(publicKey interface{}, algo SignatureAlgorithm, signedDataB
 
 		if algo == SigDsaWithSha256 || algo == SigVerityDsaWithSha256 {
 			k := publicKey.(*dsa.PublicKey)
-			hashed = hashed[:k.Q.BitLen()/8]
+			if n := k.Q.BitLen() / 8; n < len(hashed) {
+				hashed = hashed[:n]
+			}
 			if !dsa.Verify(k, hashed, params[0], params[1]) {
 				return errors.New("DSA verification failed.")
 			}
-- 
2.43.0


From b9a1ecb0085f9f1c8595f88356ed082bad8bea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 04/31] fix: compare a v3 signer's maximum SDK version with the
 signed one

It was compared with itself, so the unsigned copy could be changed to make
a signer apply to other platforms than it was signed for.
---
 signingblock/schemev3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signingblock/schemev3.go b/signingblock/schemev3.go
index f53f004..fd86eb0 100644
--- a/signingblock/schemev3.go
+++ b/signingblock/schemev3.go
@@ -195,8 +195,8 @@ func (s *schemeV3) verifySigner(signerBlock *bytes.Buffer, contentDigests map[co
 	if parsedMinSdkVersion != signedMinSdkVersion {
 		result.addError("mismatch between parsed and signed minSdkVersion: %d != %d", parsedMinSdkVersion, signedMinSdkVersion)
 	}
-	if parsedMaxSdkVersion != parsedMaxSdkVersion {
-		result.addError("mismatch between parsed and signed minSdkVersion: %d != %d", parsedMinSdkVersion, signedMinSdkVersion)
+	if parsedMaxSdkVersion != signedMaxSdkVersion {
+		result.addError("mismatch between parsed and signed maxSdkVersion: %d != %d", parsedMaxSdkVersion, signedMaxSdkVersion)
 	}
 
 	// Parse certificates
-- 
2.43.0


From 45dcad2e5b380ba2571c109315d4b6cfe46f6db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:14 +0000
Subject: [PATCH 05/31] fix: verify the content digests of v3.1 signers

They were dropped whenever the APK also had a v3 block, so the file's
contents were only compared with what the v3 signers had signed.
---
 signingblock/schemev31.go    |  4 ++++
 signingblock/signingblock.go | 17 ++++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/signingblock/schemev31.go b/signingblock/schemev31.go
index dd601e9..0e17c1a 100644
--- a/signingblock/schemev31.go
+++ b/signingblock/schemev31.go
@@ -9,11 +9,15 @@ import (
 type schemeV31 struct {
 	backendV3  schemeV3
 	backendV31 schemeV3
+
+	// Content digests of the v3.1 signers.
+	v31ContentDigests map[contentDigest][]byte
 }
 
 func (s *schemeV31) parseSigners(block *bytes.Buffer, contentDigests map[contentDigest][]byte, result *VerificationResult) {
 	v31ContentDigest := make(map[contentDigest][]byte)
 	s.backendV31.parseSigners(block, v31ContentDigest, result)
+	s.v31ContentDigests = v31ContentDigest
 
 	s.backendV3.rotationMinSdkVersion = math.MaxInt32
 	for _, signer := range s.backendV31.signers {
diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index a4ec428..3006150 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -586,7 +586,22 @@ func (s *signingBlock) verify(scheme signatureBlockScheme, block []byte, minSdkV
 		return nil
 	}
 
-	if !s.verifyIntegrity(contentDigests, res) {
+	expectedDigests := contentDigests
+	if v31, ok := scheme.(*schemeV31); ok {
+		// The v3.1 signers have content digests of their own, those of the v3 signers are in contentDigests.
+		expectedDigests = make(map[contentDigest][]byte)
+		for algo, digest := range contentDigests {
+			expectedDigests[algo] = digest
+		}
+		for algo, digest := range v31.v31ContentDigests {
+			if v3digest, prs := expectedDigests[algo]; prs && !bytes.Equal(v3digest, digest) {
+				res.addError("%d digests of contents in the v3.1 and v3 blocks do not match.", algo)
+			}
+			expectedDigests[algo] = digest
+		}
+	}
+
+	if !s.verifyIntegrity(expectedDigests, res) {
 		return contentDigests
 	}
 
-- 
2.43.0


From cdd80f8f587e3ecc8c6c995259a82b935e533dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 06/31] fix: do not report the failed v3 signers when falling
 back to v2

Certificates and lineage of the v3 signers that did not verify stayed in
the result and were returned without an error.
---
 signingblock/signingblock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index 3006150..4c0769e 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -183,6 +183,10 @@ func VerifySigningBlockReaderWithZip(r io.ReadSeeker, minSdkVersion, maxSdkVersi
 			res.Warnings = append(res.Warnings, fmt.Sprintf("schemeV3: %s", e.Error()))
 		}
 		res.Errors = nil
+		// Nothing of the failed scheme's result may be taken for a part of the next one's.
+		res.Certs = nil
+		res.SigningLineage = nil
+		res.ExtraResults = nil
 		contentDigests = s.pickAndVerify(blocks, minSdkVersion, maxSdkVersion, res)
 	}
 
-- 
2.43.0


From 8ba6c0cf15b75ace2381f231cd9db53af7010c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 07/31] fix: report an empty source stamp lineage as an error

An empty certificate history ended attribute parsing without any error, so
the stamp looked clean while the rest of its attributes was ignored.
---
 signingblock/sourcestamp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signingblock/sourcestamp.go b/signingblock/sourcestamp.go
index 9e538c1..f086dfb 100644
--- a/signingblock/sourcestamp.go
+++ b/signingblock/sourcestamp.go
@@ -468,6 +468,10 @@ func (v *sourceStampVerifier) parseStampCertLineage(lineage *bytes.Buffer) []*So
 			Flags:      flags,
 		})
 	}
+
+	if len(res) == 0 {
+		v.addError("source stamp certificate lineage is empty")
+	}
 	return res
 }
 
-- 
2.43.0


From e2779daf60abd86cced5c734d5e8237acae44cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:34 +0000
Subject: [PATCH 08/31] fix: reject a negative key index in frosting instead of
 panicking

---
 signingblock/frosting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signingblock/frosting.go b/signingblock/frosting.go
index e514cb2..949bb5a 100644
--- a/signingblock/frosting.go
+++ b/signingblock/frosting.go
@@ -288,7 +288,7 @@ func (f *frostingInfo) parseFrostingBlock(block []byte) error {
 
 		keyIndex, err := f.readInt32(bf)
 		keys := strings.Split(frostingPublicKeys, ",")
-		if err != nil || int(keyIndex) >= len(keys) {
+		if err != nil || keyIndex < 0 || int(keyIndex) >= len(keys) {
 			return fmt.Errorf("invalid/unknown key used in this frosting (idx %d)!", keyIndex)
 		}
 
-- 
2.43.0


From ab6436216702168de086b38241be20e0d375d4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:40 +0000
Subject: [PATCH 09/31] fix: check the v1 digest and signature of
 AndroidManifest.xml

---
 schemev1.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schemev1.go b/schemev1.go
index a9eb65f..facf366 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -464,7 +464,8 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 		}
 	}
 
-	if !hasAndroidManifest && !hasBundleConfig {
+	// Only app bundles may lack the application manifest. If it is there, it has to be signed like any other file.
+	if hasAndroidManifest || !hasBundleConfig {
 		required = append(required, "AndroidManifest.xml")
 	}
 
-- 
2.43.0


From 336c75fe51f129e186f2b0fcf40d3650193e49a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:01 +0000
Subject: [PATCH 10/31] fix: reject a JAR manifest ending in a colon instead of
 panicking

---
 manifest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/manifest.go b/manifest.go
index 60c0dc7..933516f 100644
--- a/manifest.go
+++ b/manifest.go
@@ -138,7 +138,7 @@ func (ctx *manifestParserContext) readHeader() (name, value string, singleBlock
 		if ctx.data[ctx.pos] == ':' {
 			name = string(ctx.data[mark:ctx.pos])
 
-			if ctx.pos+1 > len(ctx.data) || ctx.data[ctx.pos+1] != ' ' {
+			if ctx.pos+1 >= len(ctx.data) || ctx.data[ctx.pos+1] != ' ' {
 				err = fmt.Errorf("Invalid header structure '%s'", name)
 				return
 			}
-- 
2.43.0


From 6da3627cbe57ccda9b648f8af9f497c0ad36a189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:08 +0000
Subject: [PATCH 11/31] fix: an unknown digest algorithm in a JAR manifest no
 longer hides the known ones

---
 schemev1.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/schemev1.go b/schemev1.go
index facf366..e46b066 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -47,6 +47,7 @@ var (
 		"sha-384": sha512.New384,
 		"sha-256": sha256.New,
 		"sha1":    sha1.New,
+		"sha":     sha1.New, // platforms before 4.3 accept this name, too
 	}
 )
 
@@ -560,6 +561,10 @@ func (p *schemeV1) getDigestsToVerify(entry map[string]string, suffix string, mi
 
 		tokens := strings.Split(algs, " ")
 		for _, algo := range tokens {
+			// Android skips the algorithms it does not know and goes on with the others.
+			if _, known := digestHashers[algo]; !known {
+				continue
+			}
 			if minSdkVersion >= 9 || (algo != "sha-384" && algo != "sha-512") {
 				if _, prs := entry[algo+suffix]; prs {
 					res = append(res, algo)
-- 
2.43.0


From 61a272584c354050fe47a3d36d1e8f77f1bf1ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:37 +0000
Subject: [PATCH 12/31] fix: report unknown algorithms and keys of another type
 in v1 signatures instead of panicking

---
 schemev1.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index e46b066..3de3b23 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -700,7 +700,7 @@ func (p *schemeV1) verifySignature(sig *schemeV1Signature, minSdkVersion, maxSdk
 		dea := info.DigestEncryptionAlgorithm.Algorithm.String()
 		algo, prs := oidToAlgo[fmt.Sprintf("%s %s", da, dea)]
 		if !prs {
-			panic(fmt.Sprintf("Unknown digest algorithm: '%s %s'", da, dea))
+			return chain, fmt.Errorf("Unknown digest algorithm: '%s %s'", da, dea)
 		}
 
 		var signedData []byte
@@ -867,7 +867,10 @@ func (p *schemeV1) checkSignature(cert *x509.Certificate, algo x509.SignatureAlg
 		hasher.Write(signed)
 		hash := hasher.Sum(nil)
 
-		pub := cert.PublicKey.(*dsa.PublicKey)
+		pub, ok := cert.PublicKey.(*dsa.PublicKey)
+		if !ok {
+			return fmt.Errorf("Unexpected public key type (%T)!", cert.PublicKey)
+		}
 		reqLen := pub.Q.BitLen() / 8
 		if reqLen > len(hash) {
 			reqLen = len(hash)
-- 
2.43.0


From 05658142a2ea724a8a366489c183ee6ccfcaee81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:30 +0000
Subject: [PATCH 13/31] fix: report truncated or deeply nested BER instead of
 panicking

---
 fullsailor/pkcs7/ber.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/fullsailor/pkcs7/ber.go b/fullsailor/pkcs7/ber.go
index 3f56ea6..fad3f93 100644
--- a/fullsailor/pkcs7/ber.go
+++ b/fullsailor/pkcs7/ber.go
@@ -61,7 +61,7 @@ func ber2der(ber []byte) ([]byte, error) {
 	//fmt.Printf("--> ber2der: Transcoding %d bytes\n", len(ber))
 	out := new(bytes.Buffer)
 
-	obj, _, err := readObject(ber, 0)
+	obj, _, err := readObject(ber, 0, 0)
 	if err != nil {
 		return nil, err
 	}
@@ -132,18 +132,32 @@ func encodeLength(out *bytes.Buffer, length int) (err error) {
 	return
 }
 
-func readObject(ber []byte, offset int) (asn1Object, int, error) {
+// Objects nested deeper than this are rejected, the recursion must not exhaust the stack.
+const maxNesting = 10000
+
+var errTruncated = errors.New("ber2der: BER object is truncated")
+
+func readObject(ber []byte, offset int, depth int) (asn1Object, int, error) {
 	//fmt.Printf("\n====> Starting readObject at offset: %d\n\n", offset)
+	if depth > maxNesting {
+		return nil, 0, errors.New("ber2der: BER objects are nested too deeply")
+	}
+	if offset >= len(ber) {
+		return nil, 0, errTruncated
+	}
 	tagStart := offset
 	b := ber[offset]
 	offset++
 	tag := b & 0x1F // last 5 bits
 	if tag == 0x1F {
 		tag = 0
-		for ber[offset] >= 0x80 {
+		for offset < len(ber) && ber[offset] >= 0x80 {
 			tag = tag*128 + ber[offset] - 0x80
 			offset++
 		}
+		if offset >= len(ber) {
+			return nil, 0, errTruncated
+		}
 		tag = tag*128 + ber[offset] - 0x80
 		offset++
 	}
@@ -159,6 +173,9 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 	*/
 	// read length
 	var length int
+	if offset >= len(ber) {
+		return nil, 0, errTruncated
+	}
 	l := ber[offset]
 	offset++
 	indefinite := false
@@ -167,6 +184,9 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		if numberOfBytes > 4 { // int is only guaranteed to be 32bit
 			return nil, 0, errors.New("ber2der: BER tag length too long")
 		}
+		if numberOfBytes > len(ber)-offset {
+			return nil, 0, errTruncated
+		}
 		if numberOfBytes == 4 && (int)(ber[offset]) > 0x7F {
 			return nil, 0, errors.New("ber2der: BER tag length is negative")
 		}
@@ -189,7 +209,7 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 
 	//fmt.Printf("--> length        : %d\n", length)
 	contentEnd := offset + length
-	if contentEnd > len(ber) {
+	if length > len(ber)-offset {
 		return nil, 0, errors.New("ber2der: BER tag length is more than available data")
 	}
 	//fmt.Printf("--> content start : %d\n", offset)
@@ -210,7 +230,7 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		for (offset < contentEnd) || indefinite {
 			var subObj asn1Object
 			var err error
-			subObj, offset, err = readObject(ber, offset)
+			subObj, offset, err = readObject(ber, offset, depth+1)
 			if err != nil {
 				return nil, 0, err
 			}
-- 
2.43.0


From 8f07339461c4c8cd04d7cda1580ffa5330e11b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:31 +0000
Subject: [PATCH 14/31] fix: keep BER objects within their parent and allow
 empty ones of indefinite length

---
 fullsailor/pkcs7/ber.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/fullsailor/pkcs7/ber.go b/fullsailor/pkcs7/ber.go
index fad3f93..ebd724c 100644
--- a/fullsailor/pkcs7/ber.go
+++ b/fullsailor/pkcs7/ber.go
@@ -227,15 +227,11 @@ func readObject(ber []byte, offset int, depth int) (asn1Object, int, error) {
 		}
 	} else {
 		var subObjects []asn1Object
+		content := ber // where the content must be
+		if !indefinite {
+			content = ber[:contentEnd]
+		}
 		for (offset < contentEnd) || indefinite {
-			var subObj asn1Object
-			var err error
-			subObj, offset, err = readObject(ber, offset, depth+1)
-			if err != nil {
-				return nil, 0, err
-			}
-			subObjects = append(subObjects, subObj)
-
 			if indefinite {
 				terminated, err := isIndefiniteTermination(ber, offset)
 				if err != nil {
@@ -246,6 +242,14 @@ func readObject(ber []byte, offset int, depth int) (asn1Object, int, error) {
 					break
 				}
 			}
+
+			var subObj asn1Object
+			var err error
+			subObj, offset, err = readObject(content, offset, depth+1)
+			if err != nil {
+				return nil, 0, err
+			}
+			subObjects = append(subObjects, subObj)
 		}
 		obj = asn1Structured{
 			tagBytes: ber[tagStart:tagEnd],
-- 
2.43.0


From 2ebc15fa7c0b492cdb8cd4dfd5bdbe4a2f06d3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:20 +0000
Subject: [PATCH 15/31] fix: process v1 signatures in archive order and tell
 apart those of different folders

---
 schemev1.go | 50 +++++++++++++-------------------------------------
 1 file changed, 13 insertions(+), 37 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index 3de3b23..99db7bd 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -19,7 +19,6 @@ import (
 	"io"
 	"io/ioutil"
 	"math/big"
-	"path/filepath"
 	"sort"
 	"strconv"
 	"strings"
@@ -129,7 +128,7 @@ type schemeV1Signature struct {
 }
 
 type schemeV1 struct {
-	sigs     map[string]*schemeV1Signature
+	sigs     []*schemeV1Signature // in the order of the signature blocks in the archive
 	manifest *manifest
 	hashers  map[string]hash.Hash
 	chain    [][]*x509.Certificate
@@ -177,7 +176,6 @@ func extractCertsSchemeV1(apk *apkparser.ZipReader, minSdkVersion, maxSdkVersion
 
 func newSchemeV1(apk *apkparser.ZipReader) (*schemeV1, error) {
 	scheme := schemeV1{
-		sigs:    make(map[string]*schemeV1Signature),
 		hashers: make(map[string]hash.Hash),
 	}
 
@@ -214,17 +212,19 @@ func newSchemeV1(apk *apkparser.ZipReader) (*schemeV1, error) {
 			continue
 		}
 
-		if err := scheme.addSignatureBlock(name, blockFile); err != nil {
+		sig := &schemeV1Signature{}
+		if err := scheme.addSignatureBlock(sig, blockFile); err != nil {
 			// Behavior changed in Android 7.0 - badly formed signature blocks are no longer ignored
 			// errors = append(errors, fmt.Errorf("%s: %s", name, err.Error()))
 			// continue
 			return nil, fmt.Errorf("%s: %s", name, err.Error())
 		}
 
-		if err := scheme.addSignatureFile(sfname, sf); err != nil {
+		if err := scheme.addSignatureFile(sig, sf); err != nil {
 			errors = append(errors, fmt.Errorf("%s: %s", name, err.Error()))
 			continue
 		}
+		scheme.sigs = append(scheme.sigs, sig)
 
 		// The same signatureFile can't be used by another signature block
 		delete(signatureFiles, sfname)
@@ -249,20 +249,13 @@ func (p *schemeV1) addManifest(f *apkparser.ZipReaderFile) (err error) {
 	return
 }
 
-func (p *schemeV1) addSignatureFile(pathUpper string, f *apkparser.ZipReaderFile) (err error) {
-	prefix := p.signaturePrefix(pathUpper)
-	s := p.sigs[prefix]
-	if s == nil {
-		s = &schemeV1Signature{}
-		p.sigs[prefix] = s
-	}
-
-	s.manifestFilename = pathUpper
+func (p *schemeV1) addSignatureFile(s *schemeV1Signature, f *apkparser.ZipReaderFile) (err error) {
+	s.manifestFilename = f.Name
 	s.signatureManifest, err = parseManifest(f, false)
 	return
 }
 
-func (p *schemeV1) addSignatureBlock(pathUpper string, f *apkparser.ZipReaderFile) error {
+func (p *schemeV1) addSignatureBlock(s *schemeV1Signature, f *apkparser.ZipReaderFile) error {
 	if err := f.Open(); err != nil {
 		return err
 	}
@@ -282,12 +275,6 @@ func (p *schemeV1) addSignatureBlock(pathUpper string, f *apkparser.ZipReaderFil
 			continue
 		}
 
-		prefix := p.signaturePrefix(pathUpper)
-		s := p.sigs[prefix]
-		if s == nil {
-			s = &schemeV1Signature{}
-			p.sigs[prefix] = s
-		}
 		s.sigBlockFilename = f.Name
 		s.cert = sig
 
@@ -297,23 +284,11 @@ func (p *schemeV1) addSignatureBlock(pathUpper string, f *apkparser.ZipReaderFil
 	return fmt.Errorf("failed to open: %v", err)
 }
 
-func (p *schemeV1) signaturePrefix(pathUpper string) string {
-	fn := filepath.Base(pathUpper)
-	idx := strings.LastIndexByte(fn, '.')
-	return fn[:idx]
-}
-
 func (p *schemeV1) prepForVerification() error {
 	if p.manifest == nil {
 		return errors.New("No valid MANIFEST.SF")
 	}
 
-	for prefix, sig := range p.sigs {
-		if sig.cert == nil || sig.signatureManifest == nil {
-			delete(p.sigs, prefix)
-		}
-	}
-
 	if len(p.sigs) == 0 {
 		return errors.New("No signatures.")
 	}
@@ -323,9 +298,9 @@ func (p *schemeV1) prepForVerification() error {
 
 func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, minSdkVersion, maxSdkVersion int32) error {
 	var err error
-	validSignatures := map[string]*schemeV1Signature{}
+	var validSignatures []*schemeV1Signature
 	var signatureErrors []error
-	for sigName, sig := range p.sigs {
+	for _, sig := range p.sigs {
 		sig.chain, err = p.verifySignature(sig, minSdkVersion, maxSdkVersion)
 		if sig.chain != nil {
 			p.chain = append(p.chain, sig.chain)
@@ -418,7 +393,7 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 		}
 
 		if err == nil {
-			validSignatures[sigName] = sig
+			validSignatures = append(validSignatures, sig)
 		}
 	}
 
@@ -449,7 +424,8 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 	required := make([]string, 0, len(apk.File))
 	hasAndroidManifest := false
 	hasBundleConfig := false
-	for path, zf := range apk.File {
+	for _, zf := range apk.FilesOrdered {
+		path := zf.Name
 		if zf.IsDir {
 			continue
 		}
-- 
2.43.0


From 079dfee41be19857bdd69dfb1000fbc7888daae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 16/31] fix: choose among equally strong stamp signatures by
 position instead of at random

---
 signingblock/sourcestamp.go | 49 ++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/signingblock/sourcestamp.go b/signingblock/sourcestamp.go
index f086dfb..54e2417 100644
--- a/signingblock/sourcestamp.go
+++ b/signingblock/sourcestamp.go
@@ -216,7 +216,7 @@ func (v *sourceStampVerifier) getSignatureSchemeDigest(contentDigests map[conten
 }
 
 func (v *sourceStampVerifier) verifySignature(data []byte, cert *x509.Certificate, signatures *bytes.Buffer) bool {
-	supportedSignatures := map[SignatureAlgorithm][]byte{}
+	var supportedSignatures []stampSignature
 	for count := 0; signatures.Len() != 0; count++ {
 		signature, err := getLenghtPrefixedSlice(signatures)
 		if err != nil {
@@ -240,7 +240,7 @@ func (v *sourceStampVerifier) verifySignature(data []byte, cert *x509.Certificat
 			v.addError("failed to parse signature bytes %d: %s", count, err.Error())
 			return false
 		}
-		supportedSignatures[sigAlgoId] = sigBytes.Bytes()
+		supportedSignatures = append(supportedSignatures, stampSignature{sigAlgoId, sigBytes.Bytes()})
 	}
 
 	if len(supportedSignatures) == 0 {
@@ -254,9 +254,9 @@ func (v *sourceStampVerifier) verifySignature(data []byte, cert *x509.Certificat
 		return false
 	}
 
-	for algo, sigBytes := range toVerify {
-		if err := verifySignature(cert.PublicKey, algo, data, sigBytes); err != nil {
-			v.addError("failed to verify signature %s: %s", algo.String(), err.Error())
+	for _, sig := range toVerify {
+		if err := verifySignature(cert.PublicKey, sig.algo, data, sig.data); err != nil {
+			v.addError("failed to verify signature %s: %s", sig.algo.String(), err.Error())
 			return false
 		}
 	}
@@ -264,17 +264,20 @@ func (v *sourceStampVerifier) verifySignature(data []byte, cert *x509.Certificat
 	return true
 }
 
-func (v *sourceStampVerifier) filterSignaturesToVerify(signatures map[SignatureAlgorithm][]byte) map[SignatureAlgorithm][]byte {
-	type signature struct {
-		algo SignatureAlgorithm
-		data []byte
-	}
+type stampSignature struct {
+	algo SignatureAlgorithm
+	data []byte
+}
 
-	candidates := map[int32]*signature{}
+// filterSignaturesToVerify returns the strongest signature for each minimum SDK version,
+// the first one of those that are equally strong.
+func (v *sourceStampVerifier) filterSignaturesToVerify(signatures []stampSignature) []stampSignature {
+	var candidates []stampSignature
 
 	var minProvidedSignaturesVersion int32 = math.MaxInt32
-	for algo, content := range signatures {
-		sigMin := algo.getMinSdkVersionJca()
+nextSignature:
+	for _, sig := range signatures {
+		sigMin := sig.algo.getMinSdkVersionJca()
 		if sigMin > v.maxSdkVersion {
 			continue
 		}
@@ -282,15 +285,21 @@ func (v *sourceStampVerifier) filterSignaturesToVerify(signatures map[SignatureA
 			minProvidedSignaturesVersion = sigMin
 		}
 
-		if c := candidates[sigMin]; c == nil || compareAlgos(algo, c.algo) > 0 {
-			candidates[sigMin] = &signature{algo, content}
+		for i := range candidates {
+			if candidates[i].algo.getMinSdkVersionJca() == sigMin {
+				if compareAlgos(sig.algo, candidates[i].algo) > 0 {
+					candidates[i] = sig
+				}
+				continue nextSignature
+			}
 		}
+		candidates = append(candidates, sig)
 	}
 
 	if v.minSdkVersion < minProvidedSignaturesVersion || len(candidates) == 0 {
 		var present []string
-		for algo := range signatures {
-			present = append(present, algo.String())
+		for _, sig := range signatures {
+			present = append(present, sig.algo.String())
 		}
 
 		if len(candidates) == 0 {
@@ -302,11 +311,7 @@ func (v *sourceStampVerifier) filterSignaturesToVerify(signatures map[SignatureA
 		return nil
 	}
 
-	res := make(map[SignatureAlgorithm][]byte, len(candidates))
-	for _, c := range candidates {
-		res[c.algo] = c.data
-	}
-	return res
+	return candidates
 }
 
 func (v *sourceStampVerifier) parseCertificate(block *bytes.Buffer) *x509.Certificate {
-- 
2.43.0


From 214d0ddb5e65a69a5a0f6bc14f965aa023f143db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:01 +0000
Subject: [PATCH 17/31] fix: detect a stripped v3 signature in v1 signature
 files, too

---
 schemev1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemev1.go b/schemev1.go
index 99db7bd..126146b 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -324,7 +324,7 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 					continue
 				}
 
-				if id == 2 {
+				if id == 2 || (id == 3 && apilevel.SupportsSigV3(maxSdkVersion)) {
 					return fmt.Errorf("This apk has '%s: %s', cannot be verified using v1 scheme, downgrade attack?",
 						attrAndroidApkSigned, idList)
 				}
-- 
2.43.0


From f341c644d4703b5934d7d2fee8582a3e792d875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 18/31] fix: use the minimum SDK version for a missing target
 SDK version, as Android does

---
 apkverifier.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apkverifier.go b/apkverifier.go
index 556e7f9..53428e9 100644
--- a/apkverifier.go
+++ b/apkverifier.go
@@ -206,7 +206,10 @@ func (e *sandboxVersionEncoder) EncodeToken(t xml.Token) error {
 		val, err = e.getAttrIntValue(&st, "targetSdkVersion")
 		if err == nil {
 			e.targetSdkVersion = val
-		} else if err != io.EOF {
+		} else if err == io.EOF {
+			// The platform takes the minimum version then
+			e.targetSdkVersion = e.minSdkVersion
+		} else {
 			return err
 		}
 
-- 
2.43.0


From cdb24739004159200b9e667866466520c0a58af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:53 +0000
Subject: [PATCH 19/31] fix: read hexadecimal numbers in the app manifest

---
 apkverifier.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apkverifier.go b/apkverifier.go
index 53428e9..e2e41b5 100644
--- a/apkverifier.go
+++ b/apkverifier.go
@@ -11,6 +11,7 @@ import (
 	"io"
 	"os"
 	"strconv"
+	"strings"
 
 	"github.com/avast/apkparser"
 	"github.com/avast/apkverifier/apilevel"
@@ -226,6 +227,11 @@ func (e *sandboxVersionEncoder) getAttrIntValue(st *xml.StartElement, name strin
 	for _, attr := range st.Attr {
 		if attr.Name.Local == name {
 			val, err := strconv.ParseInt(attr.Value, 10, 32)
+			if err != nil && strings.HasPrefix(attr.Value, "0x") {
+				var hex uint64
+				hex, err = strconv.ParseUint(attr.Value[2:], 16, 32)
+				val = int64(int32(hex))
+			}
 			if err != nil {
 				return 0, fmt.Errorf("failed to decode %s '%s': %s", name, attr.Value, err.Error())
 			}
-- 
2.43.0


From 4c9d83990b089e5713b2587d576f0ea61308daad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:42 +0000
Subject: [PATCH 20/31] fix: compare the whole encoded issuer and subject names
 of v1 certificates

---
 schemev1.go | 157 ++++++++++++++++++++++++----------------------------
 1 file changed, 71 insertions(+), 86 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index 126146b..91bf6f6 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -10,9 +10,9 @@ import (
 	"crypto/sha256"
 	"crypto/sha512"
 	"crypto/x509"
-	"crypto/x509/pkix"
 	"encoding/asn1"
 	"encoding/base64"
+	"encoding/hex"
 	"errors"
 	"fmt"
 	"hash"
@@ -22,6 +22,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/avast/apkverifier/internal/asn1andr"
 
@@ -644,18 +645,15 @@ func (p *schemeV1) verifySignature(sig *schemeV1Signature, minSdkVersion, maxSdk
 	for i := range signers {
 		info := &signers[i]
 
-		var issuerSeq pkix.RDNSequence
-		if _, err := asn1andr.Unmarshal(info.IssuerAndSerialNumber.IssuerName.FullBytes, &issuerSeq); err != nil {
+		issuerCanonical, err := p.pkixCanonical(info.IssuerAndSerialNumber.IssuerName.FullBytes)
+		if err != nil {
 			return nil, err
 		}
-		var issuer pkix.Name
-		issuer.FillFromRDNSequence(&issuerSeq)
-		issuerCanonical := p.pkixCanonical(&issuer)
 
 		snum := info.IssuerAndSerialNumber.SerialNumber
 		signerCertIndex := -1
 		for i, crt := range sig.cert.Certificates {
-			if snum.Cmp(crt.SerialNumber) == 0 && issuerCanonical == p.pkixCanonical(&crt.Issuer) {
+			if snum.Cmp(crt.SerialNumber) == 0 && p.pkixEquals(issuerCanonical, crt.RawIssuer) {
 				signerCertIndex = i
 				break
 			}
@@ -751,7 +749,7 @@ func (p *schemeV1) verifySignature(sig *schemeV1Signature, minSdkVersion, maxSdk
 			signedData = sig.signatureManifest.rawData
 		}
 
-		err := p.checkSignature(signerCert, algo, signedData, info.EncryptedDigest)
+		err = p.checkSignature(signerCert, algo, signedData, info.EncryptedDigest)
 		if err != nil {
 			lastError = err
 			continue
@@ -768,15 +766,19 @@ func (p *schemeV1) verifySignature(sig *schemeV1Signature, minSdkVersion, maxSdk
 
 	// load cert chain if not self-signed
 	chain = []*x509.Certificate{firstVerifiedSignerCert}
-	if p.pkixCanonical(&firstVerifiedSignerCert.Issuer) == p.pkixCanonical(&firstVerifiedSignerCert.Subject) {
+	issuerCanonical, err := p.pkixCanonical(firstVerifiedSignerCert.RawIssuer)
+	if err != nil {
+		return nil, err
+	}
+
+	if p.pkixEquals(issuerCanonical, firstVerifiedSignerCert.RawSubject) {
 		return chain, nil
 	}
 
-	issuerCanonical := p.pkixCanonical(&firstVerifiedSignerCert.Issuer)
 	for {
 		var issuerCert *x509.Certificate
 		for _, crt := range sig.cert.Certificates {
-			if issuerCanonical == p.pkixCanonical(&crt.Subject) {
+			if p.pkixEquals(issuerCanonical, crt.RawSubject) {
 				issuerCert = crt
 				break
 			}
@@ -791,8 +793,12 @@ func (p *schemeV1) verifySignature(sig *schemeV1Signature, minSdkVersion, maxSdk
 			break
 		}
 
-		issuerCanonical = p.pkixCanonical(&issuerCert.Issuer)
-		if issuerCanonical == p.pkixCanonical(&issuerCert.Subject) {
+		issuerCanonical, err = p.pkixCanonical(issuerCert.RawIssuer)
+		if err != nil {
+			return nil, err
+		}
+
+		if p.pkixEquals(issuerCanonical, issuerCert.RawSubject) {
 			break
 		}
 	}
@@ -893,93 +899,72 @@ func (p *schemeV1) checkSignature(cert *x509.Certificate, algo x509.SignatureAlg
 	}
 }
 
-type byX501Canonical []pkix.AttributeTypeAndValue
-
-func (a byX501Canonical) Len() int      { return len(a) }
-func (a byX501Canonical) Swap(i, j int) { a[i], a[j] = a[j], a[i] }
-func (a byX501Canonical) Less(i, j int) bool {
-	ioid1 := a[i].Type
-	ioid2 := a[j].Type
-	min := len(ioid1)
-	if len(ioid2) < min {
-		min = len(ioid2)
-	}
-	for x := 0; x < min; x++ {
-		if ioid1[x] < ioid2[x] {
-			return true
-		} else if ioid1[x] > ioid2[x] {
-			return false
-		}
+type rawAttributeTypeAndValue struct {
+	Type  asn1.ObjectIdentifier
+	Value asn1.RawValue
+}
 
-		if (x+1) == len(ioid1) && (x+1) < len(ioid2) {
-			return true
-		} else if (x+1) < len(ioid1) && (x+1) == len(ioid2) {
-			return false
+type rawRelativeDistinguishedNameSET []rawAttributeTypeAndValue
+
+// Returns the canonical form of a DER-encoded X.500 name. Works on the encoded name because pkix.Name
+// keeps neither the order of attributes nor those of types it does not know.
+func (p *schemeV1) pkixCanonical(name []byte) (string, error) {
+	var seq []rawRelativeDistinguishedNameSET
+	if _, err := asn1andr.Unmarshal(name, &seq); err != nil {
+		return "", err
+	}
+
+	var res strings.Builder
+	for i := len(seq) - 1; i >= 0; i-- {
+		attrs := make([]string, 0, len(seq[i]))
+		for _, atav := range seq[i] {
+			attrs = append(attrs, atav.Type.String()+"="+p.pkixCanonicalValue(&atav.Value))
 		}
+		sort.Strings(attrs)
+		res.WriteString(strings.Join(attrs, "+"))
+		res.WriteByte(',')
 	}
-	return false
+	return res.String(), nil
 }
 
-func (p *schemeV1) pkixCanonical(n *pkix.Name) string {
-	return p.pkixCanonicalSeq(n.ToRDNSequence())
+func (p *schemeV1) pkixEquals(canonical string, name []byte) bool {
+	other, err := p.pkixCanonical(name)
+	return err == nil && canonical == other
 }
 
-func (p *schemeV1) pkixCanonicalSeq(n pkix.RDNSequence) string {
-	var res bytes.Buffer
-	for i := len(n) - 1; i >= 0; i-- {
-		atavList := n[i]
-		sort.Sort(byX501Canonical(atavList))
-
-		for _, atav := range atavList {
-			fmt.Fprintf(&res, "%s=", atav.Type.String())
-			switch val := atav.Value.(type) {
-			case string:
-				length := len(val)
-				if length == 0 {
-					break
-				}
-
-				index := 0
-				bufStart := res.Len()
-				if val[0] == '#' {
-					res.WriteString("\\#")
-					index++
-				}
+func (p *schemeV1) pkixCanonicalValue(raw *asn1.RawValue) string {
+	var parsed interface{}
+	if _, err := asn1andr.Unmarshal(raw.FullBytes, &parsed); err != nil {
+		parsed = nil
+	}
 
-				for ; index < length; index++ {
-					switch val[index] {
-					case ' ':
-						bufLen := res.Len() - bufStart
-						if bufLen == 0 || res.Bytes()[res.Len()-1] == ' ' {
-							break
-						}
-						res.WriteByte(' ')
-					case '"', '\\', ',', '+', '<', '>', ';':
-						res.WriteByte('\\')
-					default:
-						res.WriteByte(val[index])
-					}
-				}
+	val, ok := parsed.(string)
+	if !ok || !utf8.ValidString(val) {
+		return "#" + hex.EncodeToString(raw.FullBytes)
+	}
 
-				x := res.Len() - 1
-				for x >= bufStart && res.Bytes()[x] == ' ' {
-					x--
-				}
-				res.Truncate(x + 1)
-			default:
-				fmt.Fprintf(&res, "%v", atav.Value)
-			}
-			res.WriteByte('+')
+	var res strings.Builder
+	space := false
+	for i := 0; i < len(val); i++ {
+		if val[i] == ' ' {
+			space = res.Len() != 0
+			continue
 		}
 
-		// remove last +
-		if len(atavList) != 0 {
-			res.Truncate(res.Len() - 1)
+		if space {
+			res.WriteByte(' ')
+			space = false
 		}
 
-		if i != 0 {
-			res.WriteByte(',')
+		switch val[i] {
+		case '"', '\\', ',', '+', '<', '>', ';':
+			res.WriteByte('\\')
+		case '#':
+			if res.Len() == 0 {
+				res.WriteByte('\\')
+			}
 		}
+		res.WriteByte(val[i])
 	}
 	return strings.ToLower(res.String())
 }
-- 
2.43.0


From cd23efc90e3435be77ecc2ef567415e3d5c9981a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:42 +0000
Subject: [PATCH 21/31] fix: prefer valid certificates and choose one
 independent of the chains' order

---
 certinfo.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/certinfo.go b/certinfo.go
index f21b560..82e66b3 100644
--- a/certinfo.go
+++ b/certinfo.go
@@ -36,12 +36,12 @@ func (c byPreference) Less(i, j int) bool {
 		return ci.SignatureAlgorithm > cj.SignatureAlgorithm
 	}
 
-	now := time.Now()
 	// expired cert is "More" than not-expired one
-	if ci.NotAfter.After(now) || ci.NotBefore.Before(now) {
-		return false
-	} else if cj.NotAfter.After(now) || cj.NotBefore.Before(now) {
-		return true
+	now := time.Now()
+	validI := ci.NotBefore.Before(now) && ci.NotAfter.After(now)
+	validJ := cj.NotBefore.Before(now) && cj.NotAfter.After(now)
+	if validI != validJ {
+		return validI
 	}
 
 	if !ci.NotBefore.Equal(cj.NotBefore) {
@@ -49,7 +49,7 @@ func (c byPreference) Less(i, j int) bool {
 	}
 
 	if !ci.NotAfter.Equal(cj.NotAfter) {
-		return ci.NotAfter.Sub(ci.NotBefore) > cj.NotAfter.Sub(cj.NotBefore)
+		return ci.NotAfter.After(cj.NotAfter)
 	}
 	return bytes.Compare(ci.Raw, cj.Raw) > 0
 }
-- 
2.43.0


From e9734c8de52b0b1046a1589762cf1f832c311c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:15 +0000
Subject: [PATCH 22/31] fix: an empty continuation line in a JAR manifest no
 longer causes a panic

---
 manifest.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/manifest.go b/manifest.go
index 933516f..19fa31e 100644
--- a/manifest.go
+++ b/manifest.go
@@ -188,6 +188,7 @@ func (ctx *manifestParserContext) readHeader() (name, value string, singleBlock
 			if ctx.consecutiveLineBreaks == 1 {
 				value += string(ctx.data[mark:last])
 				mark = ctx.pos
+				last = ctx.pos
 				ctx.consecutiveLineBreaks = 0
 				continue
 			}
-- 
2.43.0


From dc7bc63dfd5aad54013097e3e90f9a2376f656b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 23/31] fix: PKCS#7 encryption to keys other than RSA ones is
 an error, not a panic

---
 fullsailor/pkcs7/pkcs7.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fullsailor/pkcs7/pkcs7.go b/fullsailor/pkcs7/pkcs7.go
index f8e882d..3ecf4e6 100644
--- a/fullsailor/pkcs7/pkcs7.go
+++ b/fullsailor/pkcs7/pkcs7.go
@@ -368,7 +368,7 @@ func (p7 *PKCS7) Decrypt(cert *x509.Certificate, pk crypto.PrivateKey) ([]byte,
 	if recipient.EncryptedKey == nil {
 		return nil, errors.New("pkcs7: no enveloped recipient for provided certificate")
 	}
-	if priv := pk.(*rsa.PrivateKey); priv != nil {
+	if priv, ok := pk.(*rsa.PrivateKey); ok && priv != nil {
 		var contentKey []byte
 		contentKey, err := rsa.DecryptPKCS1v15(rand.Reader, priv, recipient.EncryptedKey)
 		if err != nil {
@@ -984,7 +984,7 @@ func marshalEncryptedContent(content []byte) asn1.RawValue {
 }
 
 func encryptKey(key []byte, recipient *x509.Certificate) ([]byte, error) {
-	if pub := recipient.PublicKey.(*rsa.PublicKey); pub != nil {
+	if pub, ok := recipient.PublicKey.(*rsa.PublicKey); ok && pub != nil {
 		return rsa.EncryptPKCS1v15(rand.Reader, pub, key)
 	}
 	return nil, ErrUnsupportedAlgorithm
-- 
2.43.0


From adb14ec7a4581d36965e8a133b060faaee3dec35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 24/31] fix: report malformed parts of PKCS#7 encrypted content
 instead of dropping the rest

---
 fullsailor/pkcs7/pkcs7.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/fullsailor/pkcs7/pkcs7.go b/fullsailor/pkcs7/pkcs7.go
index 3ecf4e6..5f2a18b 100644
--- a/fullsailor/pkcs7/pkcs7.go
+++ b/fullsailor/pkcs7/pkcs7.go
@@ -404,13 +404,14 @@ func (eci encryptedContentInfo) decrypt(key []byte) ([]byte, error) {
 		// Complex case to concat all of the children OCTET STRINGs
 		var buf bytes.Buffer
 		cypherbytes := eci.EncryptedContent.Bytes
-		for {
+		for len(cypherbytes) > 0 {
 			var part []byte
-			cypherbytes, _ = asn1andr.Unmarshal(cypherbytes, &part)
-			buf.Write(part)
-			if cypherbytes == nil {
-				break
+			var err error
+			cypherbytes, err = asn1andr.Unmarshal(cypherbytes, &part)
+			if err != nil {
+				return nil, err
 			}
+			buf.Write(part)
 		}
 		cyphertext = buf.Bytes()
 	} else {
-- 
2.43.0


From 3bb8554b059400f2b494d89845a8d93d3ba93ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 25/31] fix: PKCS#7 encrypted content of odd length or with
 impossible padding is an error, not a panic

---
 fullsailor/pkcs7/pkcs7.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fullsailor/pkcs7/pkcs7.go b/fullsailor/pkcs7/pkcs7.go
index 5f2a18b..37e79b6 100644
--- a/fullsailor/pkcs7/pkcs7.go
+++ b/fullsailor/pkcs7/pkcs7.go
@@ -470,6 +470,9 @@ func (eci encryptedContentInfo) decrypt(key []byte) ([]byte, error) {
 	if len(iv) != block.BlockSize() {
 		return nil, errors.New("pkcs7: encryption algorithm parameters are malformed")
 	}
+	if len(cyphertext)%block.BlockSize() != 0 {
+		return nil, errors.New("pkcs7: encrypted content is not a multiple of the block size")
+	}
 	mode := cipher.NewCBCDecrypter(block, iv)
 	plaintext := make([]byte, len(cyphertext))
 	mode.CryptBlocks(plaintext, cyphertext)
@@ -514,6 +517,9 @@ func unpad(data []byte, blocklen int) ([]byte, error) {
 
 	// the last byte is the length of padding
 	padlen := int(data[len(data)-1])
+	if padlen < 1 || padlen > blocklen {
+		return nil, errors.New("invalid padding")
+	}
 
 	// check padding integrity, all bytes should be the same
 	pad := data[len(data)-padlen:]
-- 
2.43.0


From 0f72d6155a723bf85a0378a1b4c3c63a870b204c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:28 +0000
Subject: [PATCH 26/31] fix: reject trailing data after an ECDSA or DSA
 signature in signing block schemes

---
 signingblock/utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/signingblock/utils.go b/signingblock/utils.go
index fcbdde3..4f8ee45 100644
--- a/signingblock/utils.go
+++ b/signingblock/utils.go
@@ -72,8 +72,10 @@ func verifySignature(publicKey interface{}, algo SignatureAlgorithm, signedDataB
 		return rsa.VerifyPKCS1v15(publicKey.(*rsa.PublicKey), crypto.SHA512, hashed[:], signature)
 	case SigEcdsaWithSha256, SigEcdsaWithSha512, SigDsaWithSha256, SigVerityEcdsaWithSha256, SigVerityDsaWithSha256:
 		var params []*big.Int
-		if _, err := asn1.Unmarshal(signature, &params); err != nil {
+		if rest, err := asn1.Unmarshal(signature, &params); err != nil {
 			return fmt.Errorf("failed to unmarshal ECDSA signature: %s", err.Error())
+		} else if len(rest) != 0 {
+			return errors.New("trailing data after ECDSA or DSA signature")
 		} else if len(params) != 2 {
 			return fmt.Errorf("ECDSA or DSA signature with %d values", len(params))
 		}
-- 
2.43.0


From 8d5b541efc61ec01521476a33f7f76dd32baf19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:00 +0000
Subject: [PATCH 27/31] fix: a failure to read the APK no longer counts as an
 absent or invalid signature

---
 signingblock/signingblock.go | 42 ++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index 4c0769e..a205f2a 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -109,7 +109,7 @@ type signatureBlockScheme interface {
 }
 
 type signingBlock struct {
-	file             io.ReadSeeker
+	file             *apkReader
 	fileSize         int64
 	eocdOffset       int64
 	centralDirOffset int64
@@ -126,6 +126,36 @@ func (e *signingBlockNotFoundError) Error() string {
 	return "Signature Block signature not found: " + e.err.Error()
 }
 
+// apkReader remembers the first failure to read the file, which says nothing about the signatures in it.
+type apkReader struct {
+	io.ReadSeeker
+	err error
+}
+
+func (r *apkReader) Read(p []byte) (n int, err error) {
+	n, err = r.ReadSeeker.Read(p)
+	if err != nil && (err != io.EOF || n == 0) && r.err == nil {
+		r.err = err
+	}
+	return
+}
+
+func (r *apkReader) Seek(offset int64, whence int) (pos int64, err error) {
+	pos, err = r.ReadSeeker.Seek(offset, whence)
+	if err != nil && r.err == nil {
+		r.err = err
+	}
+	return
+}
+
+// failure yields an error if the file could not be read, else the given one.
+func (r *apkReader) failure(err error) error {
+	if r.err != nil {
+		return fmt.Errorf("failed to read the APK file: %s", r.err.Error())
+	}
+	return err
+}
+
 func IsSigningBlockNotFoundError(err error) bool {
 	_, ok := err.(*signingBlockNotFoundError)
 	return ok
@@ -165,7 +195,7 @@ func VerifySigningBlockReaderWithZip(r io.ReadSeeker, minSdkVersion, maxSdkVersi
 		res.Frosting.Error = frosting.verifyApk(r, s.sigBlockOffset, v2block, s.centralDirOffset, s.centralDirSize, s.eocd)
 	}
 	if err != nil {
-		err = &signingBlockNotFoundError{err}
+		err = s.file.failure(&signingBlockNotFoundError{err})
 		return
 	}
 
@@ -198,7 +228,7 @@ func VerifySigningBlockReaderWithZip(r io.ReadSeeker, minSdkVersion, maxSdkVersi
 
 	res.SourceStamp = stampVerifier.VerifySourceV2Stamp(optionalZip, blocks[blockIdSourceStampV2], contentDigests)
 
-	err = res.GetLastError()
+	err = s.file.failure(res.GetLastError())
 	return
 }
 
@@ -242,8 +272,8 @@ func ExtractCertsReader(r io.ReadSeeker, minSdkVersion, maxSdkVersion int32) (ce
 
 	res := &VerificationResult{}
 	blocks, _, err := s.findSignatureBlocks(maxSdkVersion, res)
-	if err != nil {
-		err = &signingBlockNotFoundError{err}
+	if err != nil || s.file.err != nil {
+		err = s.file.failure(&signingBlockNotFoundError{err})
 		return
 	}
 
@@ -281,7 +311,7 @@ func newSigningBlock(r io.ReadSeeker) (sblock *signingBlock, magic uint32, err e
 	}
 
 	sblock = &signingBlock{
-		file:     r,
+		file:     &apkReader{ReadSeeker: r},
 		fileSize: size,
 	}
 	return
-- 
2.43.0


From 9eb2c5dfddf0fce269a036029432e66c11376586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:01 +0000
Subject: [PATCH 28/31] fix: a signature file that cannot be read is an error
 and is not left out

---
 manifest.go | 8 +++++++-
 schemev1.go | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/manifest.go b/manifest.go
index 19fa31e..1e82936 100644
--- a/manifest.go
+++ b/manifest.go
@@ -37,9 +37,14 @@ type manifestParserContext struct {
 	consecutiveLineBreaks int
 }
 
+// manifestReadError says that a manifest could not be read, as opposed to one that is malformed.
+type manifestReadError struct {
+	error
+}
+
 func parseManifest(f *apkparser.ZipReaderFile, withChunks bool) (*manifest, error) {
 	if err := f.Open(); err != nil {
-		return nil, err
+		return nil, &manifestReadError{err}
 	}
 	defer f.Close()
 
@@ -55,6 +60,7 @@ func parseManifest(f *apkparser.ZipReaderFile, withChunks bool) (*manifest, erro
 
 		ctx.data, err = ioutil.ReadAll(f)
 		if err != nil {
+			err = &manifestReadError{err}
 			continue
 		}
 		ctx.man.rawData = ctx.data
diff --git a/schemev1.go b/schemev1.go
index 91bf6f6..95809cf 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -222,6 +222,9 @@ func newSchemeV1(apk *apkparser.ZipReader) (*schemeV1, error) {
 		}
 
 		if err := scheme.addSignatureFile(sig, sf); err != nil {
+			if _, unread := err.(*manifestReadError); unread {
+				return nil, fmt.Errorf("%s: %s", sfname, err.Error())
+			}
 			errors = append(errors, fmt.Errorf("%s: %s", name, err.Error()))
 			continue
 		}
-- 
2.43.0


From faf0639a46925a30a09a1c75589bf253404b3949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:04 +0000
Subject: [PATCH 29/31] fix: negative RSA moduli keep leading 0xff bytes and a
 zero modulus is an error

---
 internal/x509andr/x509.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/internal/x509andr/x509.go b/internal/x509andr/x509.go
index 548d126..30e4f2b 100644
--- a/internal/x509andr/x509.go
+++ b/internal/x509andr/x509.go
@@ -978,19 +978,18 @@ func parsePublicKey(algo PublicKeyAlgorithm, keyData *publicKeyInfo, needsReenco
 			return nil, errors.New("x509: trailing data after RSA public key")
 		}
 
-		if p.N.Sign() <= 0 {
+		if p.N.Sign() == 0 {
+			return nil, errors.New("x509: RSA modulus is not a positive number")
+		}
+		if p.N.Sign() < 0 {
 			// CHADRON: Android does not care, re-encode to positive
 			// return nil, errors.New("x509: RSA modulus is not a positive number")
 			if needsReencode != nil {
 				*needsReencode = true
 			}
-			p.N.Neg(p.N)
-			p.N.Sub(p.N, big.NewInt(1))
-			bytes := p.N.Bytes()
-			for i := range bytes {
-				bytes[i] = ^bytes[i]
-			}
-			p.N.SetBytes(bytes)
+			// Two's complement of the shortest encoding, which DER requires.
+			size := new(big.Int).Not(p.N).BitLen()/8 + 1
+			p.N.Add(p.N, new(big.Int).Lsh(big.NewInt(1), uint(size)*8))
 		}
 		if p.E <= 0 {
 			return nil, errors.New("x509: RSA public exponent is not a positive number")
-- 
2.43.0


From 08200d6df5c65dbff819b694ef92967109ecfa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:05 +0000
Subject: [PATCH 30/31] fix: printing unknown lineage capabilities overflowed
 the stack and left out the highest one

---
 signingblock/schemev3lineage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signingblock/schemev3lineage.go b/signingblock/schemev3lineage.go
index 1edbb1e..bda90b2 100644
--- a/signingblock/schemev3lineage.go
+++ b/signingblock/schemev3lineage.go
@@ -33,7 +33,7 @@ const (
 
 func (c LineageCertCaps) String() string {
 	var values []string
-	for i := uint(0); i < 31; i++ {
+	for i := uint(0); i < 32; i++ {
 		mask := LineageCertCaps(1 << i)
 		if (c & mask) == 0 {
 			continue
@@ -50,7 +50,7 @@ func (c LineageCertCaps) String() string {
 		case CapAuth:
 			values = append(values, "Auth")
 		default:
-			values = append(values, fmt.Sprintf("0x%x", mask))
+			values = append(values, fmt.Sprintf("0x%x", uint32(mask)))
 		}
 	}
 
-- 
2.43.0


From a6e2272b5fb0d96e7019e316de90663bfe9602e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:49 +0000
Subject: [PATCH 31/31] fix: RSA-PSS with SHA-256 is known since Android 7.0,
 so lineages that use it have a minimum SDK version

---
 signingblock/signer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/signingblock/signer.go b/signingblock/signer.go
index 200d252..38b891f 100644
--- a/signingblock/signer.go
+++ b/signingblock/signer.go
@@ -107,7 +107,8 @@ func (algo SignatureAlgorithm) getDigestType() contentDigest {
 
 func (algo SignatureAlgorithm) getMinSdkVersion() int32 {
 	switch algo {
-	case SigRsaPssWithSha512, SigRsaPkcs1V15WithSha256, SigRsaPkcs1V15WithSha512,
+	case SigRsaPssWithSha256, SigRsaPssWithSha512,
+		SigRsaPkcs1V15WithSha256, SigRsaPkcs1V15WithSha512,
 		SigEcdsaWithSha256, SigEcdsaWithSha512, SigDsaWithSha256:
 		return apilevel.V7_0_Nougat
 	case SigVerityRsaPkcs1V15WithSha256, SigVerityEcdsaWithSha256, SigVerityDsaWithSha256:
-- 
2.43.0

