# One table: the properties, their anchors, and what the check of each covers.
NOTES = "See DESIGN.md. No hooks are needed in /repo: harnesses enter through a go/packages overlay (symbolic) and go test -overlay (replay)."
NOT_APPLICABLE = {}
SB = "signingblock/"
PROPS = [
 dict(id="P01", title="The signing block is found only where the ZIP end record says it ends",
  statement="For every file, the signing block that is used ends exactly at the central directory named by the ZIP end-of-central-directory record that ends the file, its two size fields agree and it lies wholly inside the file; the directory must end exactly at the end record. In every other case, and for ZIP64 archives, the file is reported as having no signing-block signature, never as verified.",
  over=["inputs"], forall="all file contents: end-record fields, comments (including ones that imitate a record), locator bytes, block sizes, magic and offsets",
  why="Tests verify fixed sample APKs with well-formed framing plus a few hand-broken ones; attacks pick the framing bytes.",
  files=[SB+"signingblock.go"],
  mech=[("end record search and range checks", SB+"signingblock.go:findEocdMaxCommentSize"), ("block location", SB+"signingblock.go:findApkSigningBlock"), ("ZIP64 refusal", SB+"signingblock.go:isZip64")],
  obs=["signingblock.VerifySigningBlockReaderWithZip", "signingblock.ExtractCertsReader", "signingblock.IsSigningBlockNotFoundError"]),
 dict(id="P02", title="Every ID-value pair of the signing block is delivered exactly once, unchanged",
  statement="For every well-formed signing block, each pair's value reaches its consumer bit for bit: signature schemes the requested platforms support are used for verification and everything unknown or unsupported is returned to the caller, including values of length zero. If an identifier repeats, the first pair counts, as on the platform. A malformed pair sequence is reported as such and never yields a verified result.",
  over=["inputs"], forall="all pair lengths, identifiers, values and orders within the block",
  why="Tests see the pair layouts that apksigner writes; length fields and identifiers range over 2^64 and 2^32 values.",
  files=[SB+"signingblock.go"],
  mech=[("pair loop", SB+"signingblock.go:findSignatureBlocks")],
  obs=["signingblock.VerificationResult.ExtraBlocks", "error of VerifySigningBlockReaderWithZip"]),
 dict(id="P03", title="The content digest covers every byte outside the signing block",
  statement="An APK signed with a block-based scheme is accepted only if the digest in the signed data equals the scheme's digest of all bytes before the signing block, the central directory and the end record (with its directory offset read as the block's offset), split into 1 MB chunks section by section. Equal digests are always accepted.",
  over=["inputs"], forall="all contents and sizes of the three protected sections, including empty sections and sizes around the chunk size",
  why="Tests check that a handful of modified samples fail; the claim is that no byte position and no size escapes the digest.",
  files=[SB+"signingblock.go", SB+"datasource.go"],
  mech=[("chunk loop", SB+"signingblock.go:computeOneMbChunkContentDigests"), ("section bounds", SB+"datasource.go"), ("comparison", SB+"signingblock.go:verifyIntegrity")],
  obs=["verdict of VerifySigningBlockReaderWithZip"]),
 dict(id="P04", title="The verity content digest is the Merkle root over the whole protected file",
  statement="For APKs signed with a verity algorithm the accepted digest is the SHA-256 Merkle root, over 4096-byte pages of the protected sections taken as one stream with zero padding of the last page of each level, followed by the stream length; the part before the signing block must be page aligned.",
  over=["inputs"], forall="all contents and lengths, including lengths around page and level boundaries and page ranges straddling section boundaries",
  why="One sample APK with a verity signature exists; tree shape, padding and straddling pages depend on sizes.",
  files=[SB+"verity.go", SB+"datasource.go", SB+"signingblock.go"],
  mech=[("tree builder", SB+"verity.go:generateTreeRootHash"), ("level layout", SB+"verity.go:calculateLevelOffset"), ("chained source", SB+"datasource.go:dataSourceChained")],
  obs=["verdict of VerifySigningBlockReaderWithZip"]),
 dict(id="P05", title="No byte of a block-signed APK can change without rejection",
  statement="If an APK verifies with a block-based scheme, then changing any protected byte, any byte of the signed data, of a signature, of the public key or of a certificate makes verification fail for the same SDK range. The untouched APK verifies.",
  over=["inputs"], forall="all positions and all replacement values in APKs signed with RSA, ECDSA and DSA keys under the v2, v3 and v3.1 schemes",
  why="Tests flip a few bytes in samples; the property quantifies over every position and value at once.",
  files=[SB+"signer.go", SB+"schemev2.go", SB+"schemev3.go", SB+"signingblock.go", SB+"utils.go"],
  mech=[("signature over signed data", SB+"signer.go:parsePublicKey"), ("digest comparison", SB+"signingblock.go:verifyIntegrity"), ("key equals certificate", SB+"signer.go:parseCertificates")],
  obs=["verdict of VerifySigningBlockReaderWithZip"]),
 dict(id="P06", title="A signer record is accepted only if all of its parts agree",
  statement="A block-scheme signer is accepted only if the strongest supported signature it lists verifies with the listed public key over the exact signed data, that key equals the key of its first certificate, and the algorithm lists of signatures and digests are identical. Unsupported algorithms alone never suffice and never veto a valid supported one.",
  over=["inputs"], forall="all combinations and orders of signature algorithms, valid and invalid signatures, matching and foreign keys and certificates",
  why="Tests contain selected malformed signer records; combinations of algorithm lists, keys and validity are not enumerated.",
  files=[SB+"signer.go", SB+"utils.go"],
  mech=[("best algorithm choice", SB+"signer.go:parseSignatures"), ("key check", SB+"signer.go:parsePublicKey"), ("certificate check", SB+"signer.go:parseCertificates"), ("algorithm lists", SB+"signer.go:parseDigests")],
  obs=["verdict and Certs of VerifySigningBlockReaderWithZip"]),
 dict(id="P07", title="Every signer of a block must verify and all of them are reported",
  statement="With several v2 signers, verification succeeds only if every one of them verifies and all agree on the content digest; the reported certificate chains are then exactly theirs in order. No signer, or more than ten, is an error.",
  over=["inputs"], forall="all numbers of signers up to the limit and all subsets of them broken in any one way",
  why="Tests have one- and two-signer samples; whether one bad signer among many can hide is a property of the loop.",
  files=[SB+"schemev2.go", SB+"signer.go", SB+"verificationresult.go"],
  mech=[("signer loop", SB+"schemev2.go:parseSigners"), ("chain collection", SB+"verificationresult.go:certAdder")],
  obs=["VerificationResult.Certs", "VerificationResult.Errors"]),
 dict(id="P08", title="Stripping a newer signature from a multi-scheme APK is detected",
  statement="If a valid v2 signer declares that the APK was also signed with a newer block scheme, verification for platforms that know v3 fails whenever that scheme's block is absent, and does not fail for this reason when it is present or when no requested platform knows v3.",
  over=["inputs", "configurations"], forall="all declared scheme numbers, all sets of blocks present and all SDK ranges",
  why="Tests have one stripped sample with one SDK range.",
  files=[SB+"schemev2.go", SB+"signingblock.go"],
  mech=[("stripping attribute", SB+"schemev2.go:verifySigner"), ("extra blocks", SB+"signingblock.go:findSignatureBlocks")],
  obs=["verdict of VerifySigningBlockReaderWithZip"]),
 dict(id="P09", title="v3 signers must cover the requested SDK range without gaps",
  statement="A v3 signature is accepted for an SDK range only if every signer's declared range is sane (1 <= min <= max) and equal in its signed and unsigned copies, the signers' ranges join without gap or overlap, and together they cover the requested range from Android 9 on.",
  over=["inputs", "configurations"], forall="all 32-bit range bounds of up to three signers in any order, and all requested ranges",
  why="Tests have a few fixed ranges; the condition is arithmetic over eight or more 32-bit numbers.",
  files=[SB+"schemev3.go"],
  mech=[("range checks", SB+"schemev3.go:verifySigner"), ("coverage", SB+"schemev3.go:finalizeResult")],
  obs=["verdict of VerifySigningBlockReaderWithZip"]),
 dict(id="P10", title="A reported signing lineage is a verified chain ending in the signer",
  statement="If verification succeeds and reports a signing lineage, every certificate in it after the first was signed for by its predecessor with the algorithm both records name, no certificate repeats, the last one is the current signer's certificate, and the lineages of all signers of the deciding block are prefixes of the reported one. The reported order, algorithms, flags and signatures are those of the file, and the reported minimum SDK is Android 9.",
  over=["inputs"], forall="all lineages of up to three certificates with any one link, algorithm, order or terminal certificate wrong",
  why="Tests hold a few lineage samples; the chain condition ranges over links and signers.",
  files=[SB+"schemev3.go", SB+"schemev3lineage.go"],
  mech=[("lineage reader", SB+"schemev3.go:readSigningCertificateLineage"), ("terminal certificate", SB+"schemev3lineage.go:getSubLineage"), ("merge", SB+"schemev3.go:consolidateLineages")],
  obs=["VerificationResult.SigningLineage"]),
 dict(id="P11", title="A v3.1 signature is verified together with its v3 base",
  statement="When a v3.1 block applies, success means that both it and the v3 block verify - signatures, content digests and SDK ranges - that the v3 signers cover every release below the v3.1 ones, and that the rotation release the v3 signer declares equals the v3.1 one. A v3.1 block without a v3 block, or a declared rotation without a v3.1 block, is an error.",
  over=["inputs", "configurations"], forall="all rotation releases, ranges, digests and presence of the two blocks and the attribute",
  why="Tests hold a few samples from apksigner; mixing a v3.1 block from another APK is not among them.",
  files=[SB+"schemev31.go", SB+"schemev3.go"],
  mech=[("combined parsing", SB+"schemev31.go:parseSigners"), ("combined coverage", SB+"schemev31.go:finalizeResult")],
  obs=["verdict and Certs of VerifySigningBlockReaderWithZip"]),
 dict(id="P12", title="The newest applicable scheme decides and only its certificates are reported",
  statement="The newest block scheme that the requested platforms support and the APK carries decides the result; falling back from v3 to v2 happens only if platforms without v3 are requested and a v2 block exists. On success the reported scheme, certificates and lineage are those of the scheme that verified.",
  over=["inputs", "configurations"], forall="all sets of blocks, all SDK ranges, all validity patterns of the blocks",
  why="Tests pair few samples with few SDK ranges; an invalid newer block next to a valid older one from another signer is not covered.",
  files=[SB+"signingblock.go"],
  mech=[("scheme choice", SB+"signingblock.go:pickScheme"), ("fallback", SB+"signingblock.go:VerifySigningBlockReaderWithZip")],
  obs=["VerificationResult.SchemeId", "VerificationResult.Certs", "VerificationResult.SigningLineage"]),
 dict(id="P13", title="A v1-signed APK has no unsigned file outside META-INF",
  statement="v1 verification succeeds only if every file outside META-INF, the application manifest included, is listed in the JAR manifest with a digest equal to the digest of its content, every listed file exists, and a valid signature file covers each one.",
  over=["inputs"], forall="all file contents, digests, and all patterns of files listed, missing, duplicated or altered",
  why="Tests alter selected entries of samples; the claim is about every entry, including specially treated names.",
  files=["schemev1.go"],
  mech=[("file loop", "schemev1.go:verifyMainManifest"), ("file digest", "schemev1.go:verifyFileHash")],
  obs=["verdict of apkverifier.Verify*"]),
 dict(id="P14", title="A v1 signature file vouches for the manifest it was made for",
  statement="A v1 signature file counts only if its digest of the whole manifest matches, or every entry it lists matches the manifest's section for that name; a wrong digest of the manifest's main part is fatal unless the file says that signtool made it. Any change to a vouched manifest section is detected.",
  over=["inputs"], forall="all manifest and signature-file digests and contents, created by signtool or not, with and without whole-file digest",
  why="Tests use intact samples and a few altered ones; the interplay of the three digest kinds is not enumerated.",
  files=["schemev1.go", "manifest.go"],
  mech=[("digest cascade", "schemev1.go:verify")],
  obs=["verdict of apkverifier.Verify*"]),
 dict(id="P15", title="A v1 certificate is reported only if its key signed the signature file",
  statement="A v1 signer is accepted only if, in its PKCS#7 block, a signer record names one of the enclosed certificates by issuer and serial number and that certificate's key made a valid signature over the signature file - directly, or over signed attributes whose digest (and, from Android 7 on, content type) match it. Before Android 7 only the first signer record counts.",
  over=["inputs", "configurations"], forall="all signer records, with and without signed attributes, any of their parts altered, and all SDK ranges",
  why="Tests replay sample APKs; combinations of signer records, attributes and SDK ranges are not covered.",
  files=["schemev1.go", "fullsailor/pkcs7/pkcs7.go"],
  mech=[("signer selection", "schemev1.go:verifySignature"), ("signature check", "schemev1.go:checkSignature")],
  obs=["SignerCerts and verdict of apkverifier.Verify*"]),
 dict(id="P16", title="v1 signers sign everything, are bounded, and cannot hide a stripped v2 signature",
  statement="v1 verification succeeds only if every file is signed by the same set of signers, no signature block in the archive has an invalid signature and there are at most ten signers; the reported signers are exactly those of the files. If a signature file declares a v2 or v3 signature that is not there, verification for platforms that know that scheme fails.",
  over=["inputs", "configurations"], forall="all assignments of files to signers, broken signers, declared scheme lists and SDK ranges",
  why="Tests have few multi-signer samples; the sets-of-chains comparison and declaration list are input dependent.",
  files=["schemev1.go"],
  mech=[("chain comparison", "schemev1.go:certChainsMatch"), ("declared schemes", "schemev1.go:verify")],
  obs=["verdict of apkverifier.Verify*"]),
 dict(id="P17", title="JAR manifests are parsed exactly as written",
  statement="For every byte string, parsing a manifest either fails or yields the attributes as the JAR format defines them - names case-insensitive, the last of repeated attributes, continuation lines joined, sections by name - and the recorded sections are consecutive parts of the input from the end of the main part on. Malformed names, unnamed sections, NUL bytes in names or values and, except in signature files, sections of equal name are rejected; a last line without line break and text after the last colon do not count.",
  over=["inputs"], forall="all byte strings up to the length bound",
  why="Only manifests inside sample APKs are parsed by tests; line endings, continuations and truncations combine freely.",
  files=["manifest.go"],
  mech=[("header reader", "manifest.go:readHeader"), ("section loop", "manifest.go:parse")],
  obs=["digest verdicts of apkverifier.Verify* over manifest sections"]),
 dict(id="P18", title="Issuer matching treats names as equal only if they are equivalent",
  statement="Two X.500 names are considered the same when they differ only in letter case, in surrounding or repeated spaces or in the order of attributes within one component, and are never considered the same when they differ otherwise.",
  over=["inputs"], forall="all pairs of names with up to three attributes and values within the length bound",
  why="Tests compare issuers only as they occur in samples; collisions need chosen names.",
  files=["schemev1.go"],
  mech=[("canonical form", "schemev1.go:pkixCanonicalSeq")],
  obs=["certificate selection of v1 verification"]),
 dict(id="P19", title="v1 digests are chosen by platform as Android does and none is skipped",
  statement="For each entry and SDK range, the digests checked are the ones the platforms in the range would use: the strongest known one from Android 4.3 on, and for older platforms those named by the entry's algorithm list (by default SHA and SHA1). An entry with no usable digest is never treated as verified.",
  over=["inputs", "configurations"], forall="all subsets of digest attributes, algorithm lists and SDK ranges",
  why="Tests use samples with one digest kind and wide SDK ranges.",
  files=["schemev1.go"],
  mech=[("digest choice", "schemev1.go:getDigestsToVerify"), ("digest check", "schemev1.go:verifyManifestEntry")],
  obs=["verdict of apkverifier.Verify*"]),
 dict(id="P20", title="The overall verdict follows the platforms' rules for which scheme is required",
  statement="For every SDK range and app manifest, success means that the newest block signature, if there is one that a requested platform knows, verifies, that the v1 signature verifies whenever a platform without block schemes is requested or no block signature exists, and that apps needing a newer scheme (sandbox version 2, or target SDK 30 or later for ranges that reach it) have one. A file that is also a DEX file is reported as such whenever v1 decides.",
  over=["inputs", "configurations"], forall="all SDK ranges, manifest values (minimum and target SDK, sandbox version), presence and validity of signatures and file magics",
  why="Tests cover a few cells of this decision table, with default SDK ranges.",
  files=["apkverifier.go", "apilevel/levels.go"],
  mech=[("decision", "apkverifier.go:VerifyWithSdkVersionReader"), ("app manifest", "apkverifier.go:getManifestInfo")],
  obs=["Result and error of VerifyWithSdkVersionReader"]),
 dict(id="P21", title="Extracting certificates agrees with verifying",
  statement="For every APK that verifies over the full SDK range without falling back to an older block scheme, extracting certificates succeeds and returns exactly the chains that verification reports, in the same order; v1 signature files that verification ignores are extracted too. For every APK, extraction reports no certificate of a signer whose signature over its own signed data is invalid without also reporting an error.",
  over=["inputs"], forall="all APKs of the bounded shapes with intact and altered signature blocks, under all schemes",
  why="Tests run extraction on few samples and do not compare it with verification.",
  files=["apkverifier.go", SB+"signingblock.go", "schemev1.go"],
  mech=[("extraction", "apkverifier.go:ExtractCertsReader"), ("block extraction", SB+"signingblock.go:ExtractCertsReader"), ("v1 extraction", "schemev1.go:extractCertsSchemeV1")],
  obs=["apkverifier.ExtractCertsReader", "signingblock.ExtractCertsReader"]),
 dict(id="P22", title="A source stamp is reported without errors only if it verifies",
  statement="A source stamp is reported free of errors and warnings only if its certificate matches the hash stored in the APK, the certificate's key signed the digests of the content as verified by the scheme in force, and stamp time and certificate history are covered by a valid signature of that key. A stamp file without a stamp block is an error, and the stamp never changes the APK's own verdict.",
  over=["inputs"], forall="all stamp blocks of the bounded shapes with any one part altered, under each scheme",
  why="Tests hold a fixed list of stamp samples.",
  files=[SB+"sourcestamp.go"],
  mech=[("stamp verification", SB+"sourcestamp.go:VerifySourceV2Stamp"), ("signature choice", SB+"sourcestamp.go:filterSignaturesToVerify"), ("history", SB+"sourcestamp.go:parseStampCertLineage")],
  obs=["VerificationResult.SourceStamp"]),
 dict(id="P23", title="Play frosting is reported valid only for the APK it was made for",
  statement="Frosting is reported without error only if an enabled entry names a known key, that key's signature over the frosting data verifies and the signed file digest equals the digest of this APK's content and v2 block. The reported information is the signed one, and frosting never changes the APK's verdict.",
  over=["inputs"], forall="all frosting blocks up to the length bound, and structured ones with any part altered",
  why="Tests have one frosted sample; the block is attacker-controlled variable-length data.",
  files=[SB+"frosting.go"],
  mech=[("frosting parser", SB+"frosting.go:parseFrostingBlock"), ("file digest", SB+"frosting.go:verifyApk")],
  obs=["VerificationResult.Frosting"]),
 dict(id="P24", title="The best certificate does not depend on the order of the chains",
  statement="Choosing the best certificate returns one of the given chains' first certificates, prefers newer signature algorithms and then certificates valid now, gives the same certificate for every order of the chains, and its printed fingerprints, validity and names are those of that certificate. No chains yield no certificate.",
  over=["inputs"], forall="all sets of up to three certificates with arbitrary algorithms, validity periods and contents",
  why="Tests never call it with several chains in different orders.",
  files=["certinfo.go", SB+"utils.go"],
  mech=[("preference", "certinfo.go:byPreference"), ("fields", "certinfo.go:Fill")],
  obs=["PickBestApkCert", "NewCertInfo"]),
 dict(id="P25", title="The same file always gets the same answer",
  statement="For every APK and SDK range, repeated verification and extraction give the same verdict, scheme and certificates in the same order, regardless of the iteration order of any internal map.",
  over=["inputs", "schedules"], forall="all iteration orders of every internal map, for APKs with several signers, algorithms, files and stamp signatures",
  why="Go randomises map iteration; tests see one order per run and samples mostly have one signer.",
  files=["schemev1.go", SB+"signingblock.go", SB+"sourcestamp.go"],
  mech=[("v1 signer map", "schemev1.go:verify"), ("digest map", SB+"signingblock.go:verifyIntegrity"), ("stamp signature map", SB+"sourcestamp.go:verifySignature")],
  obs=["Result of VerifyWithSdkVersionReader", "ExtractCertsReader"]),
 dict(id="P26", title="ASN.1 input is decoded to what its bytes say or rejected",
  statement="For every byte string, the lenient ASN.1 decoder either fails or returns exactly the encoded integers, object identifiers, bit strings, octet and character strings, booleans, times and nested fields and consumes exactly the encoded length. Lengths and tag numbers that are not minimal are accepted; integers that are not minimal or do not fit, and times that do not exist, are rejected. Encoding any value gives DER that decodes to the same value.",
  over=["inputs"], forall="all byte strings up to the length bound, per primitive type and for nested structures",
  why="Tests are vectors; lengths, signs and padding range over all byte values.",
  files=["internal/asn1andr/asn1.go", "internal/asn1andr/marshal.go"],
  mech=[("tag and length", "internal/asn1andr/asn1.go:parseTagAndLength"), ("primitives", "internal/asn1andr/asn1.go"), ("encoder", "internal/asn1andr/marshal.go")],
  obs=["asn1andr.Unmarshal", "asn1andr.Marshal"]),
 dict(id="P27", title="BER-encoded signature blocks are converted to the same content in DER",
  statement="For every byte string, converting BER to DER either fails, because its first object is malformed, truncated or leaves its parent, or yields the definite, shortest-length encodings of the same tags and contents; input that already is DER is unchanged. Strings in parts stay in parts, lengths take up to four bytes, and data after the first object is ignored.",
  over=["inputs"], forall="all byte strings up to the length bound, with definite and indefinite lengths and nested objects",
  why="Tests are a few vectors; the input is attacker-controlled.",
  files=["fullsailor/pkcs7/ber.go"],
  mech=[("object reader", "fullsailor/pkcs7/ber.go:readObject"), ("length encoder", "fullsailor/pkcs7/ber.go:encodeLength")],
  obs=["pkcs7.Parse"]),
 dict(id="P28", title="An app's declared SDK and sandbox requirements are read correctly",
  statement="The minimum SDK, target SDK and sandbox version used for the verdict are exactly those in the app's manifest, with the platform's defaults where absent (a missing target SDK is the minimum SDK), and a manifest with values that are not 32-bit numbers counts as unreadable. Platform predicates and names change exactly at the documented releases.",
  over=["inputs", "configurations"], forall="all 32-bit values and all short attribute strings, in any combination of present and absent",
  why="Samples hold ordinary values only.",
  files=["apkverifier.go", "apilevel/levels.go", SB+"schemev3lineage.go"],
  mech=[("attribute reader", "apkverifier.go:getAttrIntValue"), ("predicates", "apilevel/levels.go")],
  obs=["verdict of VerifyWithSdkVersionReader", "apilevel.*"]),
 dict(id="P29", title="Malformed input is reported, never a crash or a hang",
  statement="For every input, verification and extraction return a result or an error; they neither panic nor run on without end, whatever the signing block, signature records, PKCS#7 data, manifest, frosting or stamp contain.",
  over=["inputs"], forall="all byte strings up to the bounds in every attacker-controlled structure, and all key/algorithm combinations",
  why="Tests feed samples that parse; crashes hide in lengths and combinations nobody sampled.",
  files=[SB+"utils.go", SB+"signingblock.go", SB+"frosting.go", "schemev1.go", "manifest.go", "fullsailor/pkcs7/ber.go", "fullsailor/pkcs7/pkcs7.go"],
  mech=[("bounds checks of every parser", "all listed files")],
  obs=["any panic out of the public functions"]),
 dict(id="P30", title="The PKCS#7 package accepts only intact messages",
  statement="Verifying a PKCS#7 message succeeds only if every signer's signature and, where present, its message-digest attribute match the content; decrypting returns the encrypted content, and malformed padding or lengths give an error.",
  over=["inputs"], forall="all contents, altered digests, attributes and signatures of messages of the bounded shapes, and all padding bytes",
  why="Tests are vectors of intact messages.",
  files=["fullsailor/pkcs7/pkcs7.go"],
  mech=[("verification", "fullsailor/pkcs7/pkcs7.go:verifySignature"), ("padding", "fullsailor/pkcs7/pkcs7.go:unpad")],
  obs=["pkcs7.PKCS7.Verify", "pkcs7.PKCS7.Decrypt"]),
 dict(id="P31", title="A malformed signature record is an error and never counts as absent",
  statement="Success means that every part of a scheme block the platform reads - signers, signed data, signatures, public key, certificates, digests, additional attributes, SDK fields and signing histories - lies completely inside its parent; a part that is missing, truncated or longer than its parent makes verification fail and is never skipped. Bytes after the last field of a record do not change the verdict.",
  over=["inputs"], forall="every part of a v2 and v3 signer and of a signing history, malformed in every way within the bounds, with right signatures over the malformed data",
  why="Tests hold a few truncated samples; every nested part can be malformed in many ways, with signatures that are right.",
  files=[SB+"schemev2.go", SB+"schemev3.go", SB+"signer.go", SB+"utils.go"],
  mech=[("length-prefixed fields", SB+"utils.go:getLenghtPrefixedSlice"), ("signer records", SB+"signer.go"), ("signers", SB+"schemev2.go, "+SB+"schemev3.go:verifySigner"), ("histories", SB+"schemev3.go:readSigningCertificateLineage")],
  obs=["verdict of VerifySigningBlockReaderWithZip"]),
 dict(id="P32", title="The answer depends only on the bytes of the file, not on how they are read",
  statement="Every entry point - by path or reader, with or without a ZIP reader handed over, from any position of the reader - gives the same verdict, scheme, certificates and signing block result for the same file and SDK range, however the reader splits its data. A call of the reader that fails is reported as an error or changes nothing: it never makes a signature count as absent or invalid, nor an APK accepted that is rejected otherwise, nor other certificates reported. ZIP readers handed over stay open and files opened are closed.",
  over=["inputs", "faults"], forall="every file of a set covering all schemes, right and wrong, every entry point, every position of a failing or partial call of the reader within the bounds",
  why="Tests read intact files by path; a failing or partial read can occur at any call, and each entry point sets up its reader and SDK range by itself.",
  files=["apkverifier.go", SB+"signingblock.go", SB+"datasource.go", "schemev1.go", "manifest.go"],
  mech=[("entry points", "apkverifier.go:VerifyWithSdkVersionReader, ExtractCertsReader"), ("block entry points", SB+"signingblock.go:VerifySigningBlockReaderWithZip, ExtractCertsReader"), ("protected bytes", SB+"datasource.go:dataSourceApk.writeTo"), ("v1 members", "schemev1.go:newSchemeV1, manifest.go:parseManifest")],
  obs=["results and errors of the entry points"]),
 dict(id="P33", title="A verification is independent of everything verified before",
  statement="In one process, the verdict, scheme, certificates, history, stamp and frosting reported for a file and SDK range are the same whatever files were verified, extracted or parsed before, right or wrong, under the same path or not - also when they share certificates, keys, signatures or content with it. No later call changes a result that was returned, and changing a returned result does not influence later calls.",
  over=["inputs", "histories"], forall="every sequence of up to four calls within the bounds: any of a set of files before any other, and a right file before and after the same with any one part altered",
  why="Tests verify each file once, and each in a state the others hardly influence; what a call leaves behind shows only with a particular earlier call.",
  files=["apkverifier.go", "schemev1.go", SB+"signingblock.go", SB+"signer.go", SB+"sourcestamp.go", SB+"frosting.go", "fullsailor/pkcs7/pkcs7.go"],
  mech=[("entry points", "apkverifier.go:VerifyWithSdkVersionReader"), ("v1 signers", "schemev1.go:schemeV1.verify"), ("block signers", SB+"signer.go:verifySignature"), ("messages", "fullsailor/pkcs7/pkcs7.go:PKCS7.Verify")],
  obs=["results of later calls, and of earlier ones looked at again"]),
 dict(id="P34", title="Certificates are read as their bytes say",
  statement="A certificate, alone or one of several, is accepted if it is well-formed, rejected if a part is missing, truncated or of another type or something is behind it, and every field reported of it - raw parts, version, serial number, signature and its algorithm, public key, issuer, subject, validity, extensions and those critical ones nobody understands - is the one encoded. As on Android, an RSA modulus encoded as a negative number stands for the key with the same bits and is compared so with the key of a signer; a public key by itself is read like one in a certificate. A v1 signer whose certificate has a critical extension nobody understands is rejected.",
  over=["inputs"], forall="every certificate of the bounded shapes: any serial number, signature, RSA or DSA key, attribute value, extension content of the bounded lengths, and each part missing, truncated or malformed",
  why="Tests parse a few well-formed certificates; certificates come from the attacker, and what is reported of them decides which key is trusted.",
  files=["internal/x509andr/x509.go", SB+"signer.go", "schemev1.go"],
  mech=[("certificate", "internal/x509andr/x509.go:parseCertificate"), ("keys", "internal/x509andr/x509.go:parsePublicKey"), ("signature algorithms", "internal/x509andr/x509.go:getSignatureAlgorithmFromAI"), ("signer's key", SB+"signer.go")],
  obs=["x509andr.ParseCertificateForGo, ParseCertificatesForGo, ParsePKIXPublicKey", "certificates of the verification results"]),
 dict(id="P35", title="Lineages, algorithms and blocks are printed and compared as they are",
  statement="Printing what is reported of a file never crashes or hangs, whatever the file claims: the capabilities of a lineage entry (String) are exactly the bits set, known ones by name and others in hexadecimal; a signature algorithm and a block identifier print as the name of exactly that number, or as the number if it is not known; a printed lineage entry (Dump) has certificate, validity, names, both algorithms, signature digest and flags of that entry, and a failing write is an error. Two lineage entries are Equal exactly if certificate, both algorithms, signature and flags are equal, two lineages if they have equal entries in the same order.",
  over=["inputs"], forall="every capability set, algorithm, identifier, entry and pair of entries or lineages within the bounds",
  why="Tests print no lineage; flags, algorithms and identifiers are arbitrary numbers that a file supplies, and a tool prints them of files it may not trust.",
  files=[SB+"schemev3lineage.go", SB+"signer.go", SB+"signingblock.go"],
  mech=[("capabilities", SB+"schemev3lineage.go:LineageCertCaps.String"), ("entries", SB+"schemev3lineage.go:V3LineageSigningCertificateNode.Equal"), ("printed entry", SB+"schemev3lineage.go:V3LineageSigningCertificateNode.Dump"), ("algorithms", SB+"signer.go:SignatureAlgorithm.String"), ("identifiers", SB+"signingblock.go:BlockId.String")],
  obs=["String, Dump and Equal of reported values"]),
]
from bounds import B as _B
for _p in PROPS:
    if _p["id"] in _B:
        _p["claimed"] = True
        _p["bounds"], _p["outside"] = _B[_p["id"]]
BYID = {p["id"]: p for p in PROPS}
