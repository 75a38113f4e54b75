# What the check of each claimed property covers: (bounds, outside).
BIG = "larger files and longer lists, except where sizes are listed; platform libraries' own defects."
B = {
"P01": ("every 60-byte file with one end-record magic at any position (54-67 bytes with two in thorough); laid-out files with all framing fields (block sizes, magic, directory offset and size, comment length, ZIP64 locator) arbitrary and sections of 0-21 bytes; comments with a full imitation of an end record; a validly signed file with all 18 end record bytes arbitrary.",
        "files over about 200 bytes, three or more imitated end records."),
"P02": ("two pairs (three in thorough) of any known or arbitrary unknown identifier with values of 0-2 arbitrary bytes and any 32-bit SDK range; every pair area of up to 16 (27) arbitrary bytes; any malformed tail of up to 15 bytes after a valid block; repeated identifiers.",
        "longer pair sequences; values over 2 bytes for unknown identifiers."),
"P03": ("contents of 0-5 + 1-2 + 0-2 arbitrary bytes per section with an arbitrary signed digest; truncated or extended digests; two algorithms or signers or blocks with different digests; section sizes around 1 and 2 MB (concrete filler, symbolic bytes at chunk borders); all non-verity algorithms; v2, v3, v3.1.",
        "other section sizes; symbolic bytes away from chunk borders in large sections."),
"P04": ("0-2 pages before the block, directory sizes around page borders, page counts around 128 (second tree level), symbolic bytes at borders and an arbitrary signed digest; all verity algorithms; misaligned prefixes.",
        "trees of three levels (over 64 MB)."),
"P05": ("every position of the protected bytes, signed data, signature, key and certificate with every other value of that byte, for v2/RSA, v3/ECDSA and v3.1/ECDSA (all nine combinations with RSA, ECDSA and DSA in thorough).",
        "changes of several bytes at once; signature malleability of the ideal models' real counterparts (ECDSA s/-s, DER variants are decided by the encoded parser)."),
"P06": ("one or two (three in thorough) listed algorithms, known, unknown, fitting or not, each signature right or wrong; arbitrary signature bytes around the right one; every combination of four or five keys as signer, listed key and up to two certificates; algorithm lists of up to three entries; v2 and v3.",
        "longer lists, more than one extra certificate."),
"P07": ("one or two signers (three in thorough) each right or wrong in one of nine ways (wrong digest, signature or key, no certificate, signature, key or digest, unknown algorithms, a cut record), three with one of them so and the others right or with a wrong signature; 0-12 right signers; arbitrary tails and cuts after the last signer.",
        "two independent faults within one signer."),
"P08": ("declared schemes 3, 31 or arbitrary attribute values of 0-5 bytes, with up to three unknown attributes before and two behind; the v3 block absent, damaged or right; any 32-bit SDK range; up to two v2 signers.",
        "longer attribute lists."),
"P09": ("one to three v3 signers with arbitrary 32-bit ranges and any requested range; arbitrary unsigned copies.",
        "four or more signers."),
"P10": ("lineages of one to three records with arbitrary flags, each signed by the right or a wrong key over right or other data with right, other or arbitrary algorithm fields; wrong terminal certificate, version, truncation or tail; two (three in thorough) signers with any of the prefixes, extensions or foreign lineages; up to three unknown attributes before the lineage and two behind.",
        "longer lineages; structural damage at each single byte of a lineage (P05 covers damage under an unchanged signature)."),
"P11": ("one or two v3.1 signers over one v3 signer with arbitrary ranges and declared rotation release, each block right or damaged in two ways, either block alone, any 32-bit requested range; up to three unknown attributes before the declared release and two behind.",
        "more signers per block."),
"P12": ("any subset of v2, v3, v3.1 blocks, each right or damaged in up to two ways, signed by different keys, any 32-bit requested range.",
        "several signers per block (P07, P09, P11)."),
"P22": ("stamps over v2, v3, v3.1 and v1 content with up to two of fifteen parts wrong (certificate hash, digests, scheme, signer, attributes, time) with arbitrary wrong values; lists of one or two signatures of five (eight in thorough) algorithms, right or wrong; histories of up to three certificates with any link, algorithm, version, order or terminal certificate wrong; every replacement of one byte of a stamp with history; presence of file and block.",
        "bytes of the certificate's dates (calendar arithmetic); stamps whose scheme uses several digests."),
"P23": ("frosting of APKs signed with v2, v3 or both, used or too new for the platforms, with one (two in thorough) of nine parts wrong - digest, covered v2 block, digest length, any key index in any encoding, disabled flag, signer, protobuf, signature -, up to two disabled entries before and one after; every replacement of one byte; up to 7 (10) arbitrary bytes; section sizes around the 8 KB buffer. The built-in key is replaced by a test key in the sources given to the engine and to the replay.",
        "longer metadata lists; several built-in keys (there is one)."),
"P13": ("archives of two or three files with contents of 1-3 arbitrary bytes against fixed digests; every pattern of files listed or not, present or not, altered or not, in the manifest and in the signature file, with AndroidManifest.xml, directories and META-INF names among them; names of any 1-3 bytes; entries that occur twice, also deflated and in archives without a usable central directory; SDK ranges on both sides of Android 4.3 and 7.",
        "archives of more than four entries; compressed entries (stored ones are used); damaged central directories (the ZIP reader decides)."),
"P14": ("signature files with whole-file, main-part and per-section digests, each absent, right or wrong, by signtool or not, with SHA-1 or SHA-256 and any of the SDK ranges; every replacement of one byte of the manifest; every insertion of one byte into it.",
        "signature files with several digest kinds at once for one section (P19 covers choice of digests)."),
"P15": ("one or two signer records of 19 kinds (direct, with attributes, altered, foreign, misnamed, truncated, ...) over two certificates and four SDK ranges; every replacement of one byte of the PKCS#7 block (tags and lengths by six values in quick, by all in thorough; bytes of certificate dates excluded) and of the signature file; all combinations of key type, digest and signature algorithm; chains of three certificates with any issuer names and order, also of equal subjects; certificates with 1-3 critical extensions, known or not; certificates of 25 pairs of serial numbers of one issuer or two, named by six serial numbers or any last byte; signatures with one byte more or less.",
        "more than two signer records; changes of several bytes at once; calendar fields of certificates."),
"P16": ("one to three signers over two files, every assignment of files to signers, one of them with an altered, foreign or malformed block, an ignored signature file or a repeated key, in either archive order and in different META-INF folders; 0-12 signers; declared scheme lists of any 1-2 (3 in thorough) printable bytes or of one or two of 15 tokens, in either of two signers, with the v2 block there or not; SDK ranges from 1 to 33.",
        "three or more files; longer lists of declared schemes."),
"P19": ("up to two (three in thorough) of six digest kinds, each right or wrong, nine algorithm lists, at each of the four levels (file, section, whole manifest, main part), for every SDK range from 1 to 25.",
        "arbitrary algorithm list bytes."),
"P20": ("every combination of v1, v2 and v3 signatures absent, right or wrong with minimum and target SDK and sandbox version from representative values, any requested 32-bit range; arbitrary first bytes of the file (DEX magic).",
        "unreadable or missing app manifests; other manifest contents than those of P28."),
"P25": ("archives with up to three v1 signers, several digests, chains and files, and block signatures with several signers, algorithms and stamp signatures, each verified and extracted twice with every iteration order (first four positions) of every map the repository ranges over, independently for both runs.",
        "maps over four entries beyond their first four positions; maps inside the standard library."),
"P28": ("each of minimum SDK, target SDK and sandbox version absent or, one of them, an integer in decimal or hexadecimal (9 and 8 values around the limits), any string of 0-2 (3 in thorough) printable bytes or one of ten chosen strings, by name or resource identifier, on the right tag or elsewhere, with and without the others; all API level predicates over every 32-bit level; 40 code names.",
        "resource references; other integers and longer strings; more than one uses-sdk element with different attributes."),
"P18": ("signer records naming an issuer against a certificate's issuer, end to end: one attribute with any texts of 0-2 against 0-2 (3 in thorough) ASCII characters; names of one or two (three in thorough) attributes of three (five) types in any grouping against the same with a value, type, order, grouping or attribute changed, omitted or repeated; any pair of four (twelve) value types with any byte; any pair of 32 chosen names that are easily confused.",
        "letters outside ASCII except the chosen ones; longer texts."),
"P24": ("one or two (three in thorough) chains with any signature algorithm, any validity outside 2020-2100 (so that the time of the run does not matter) and any distinct contents, in every order; all fields with up to two symbolic values per name attribute.",
        "four or more chains; empty chains."),
"P17": ("manifests and signature files of any 0-6 bytes (9 in thorough); any 2 (3) bytes replaced, inserted or put at a cut in a sample with sections; four (five) lines of 5 (13) kinds with any line ends; names of 0-100 letters.",
        "a continuation line that ends in LF after a line ended by CR alone (Android takes the two as one line break)."),
"P21": ("every combination of v1, v2 and v3 signatures absent, right or wrong; one to three block signers of which one (two in thorough) is wrong in one of five ways, in v2, v3 and v3.1; one to three v1 signers, right, altered or ignored by verification; every replacement of one byte of a signature block that is extracted.",
        "more signers; stamps."),
"P26": ("all strings of up to 4-6 bytes for every type; any content of up to 9 bytes for integers, 5 for object identifiers and bit strings; seven times with any one byte (two adjacent in thorough) replaced; a structure of seven fields (optional, explicit, default, set, application, raw) with up to one of them absent (any in thorough), one byte changed (16 values in quick, all in thorough), cut or continued by two bytes; encoding of any 64-bit integer, identifiers of up to three (four) arcs, bit strings of up to 19 bits, octet strings around every change of length encoding.",
        "the length of explicit tags (a known finding: the existing tests need it ignored); characters of UTF-8 and BMP strings; longer contents; recursion deeper than the structure's (no type in the repository is recursive)."),
"P27": ("every string of up to 5 (6 in thorough) bytes; nests of definite and indefinite objects with short and long tags; every replacement of one byte of a sample with all forms of lengths.",
        "longer strings; contents over 255 bytes except where chosen."),
"P30": ("one block of arbitrary plaintext under every CBC cipher; contents of six (all up to two blocks in thorough) lengths with truncated, extended or foreign ciphertext, vectors, recipients and parts; encryption to every combination of RSA, EC and DSA recipients; padding of any block and content length; signed messages with up to two signers with arbitrary altered content, digest, attributes or signature; signing with every kind of key.",
        "strength of the ciphers (AES and DES run as they are; RSA and signatures are ideal models); longer contents."),
"P29": ("v2, v3 and v3.1 signers, histories, stamps and frosting, right up to one part (any field or list at any depth) that is missing, empty, of 3 or 8 arbitrary bytes, of a length that is too long by any amount or off by two, cut, extended or repeated, and signed as it is; every object of certificates, keys, PKCS#7 signatures, signed attributes and encrypted messages removed, emptied, repeated, retyped, cut, extended, of indefinite length or a special number; any value of up to 9 bytes of each pair; any framing; files of up to 23 arbitrary bytes and any end records; v1 files of up to 2 arbitrary bytes or with these added, cut manifests, signature files and blocks, 22 odd member names; every key with every algorithm and special signatures; any 32-bit SDK range; cut or altered app manifests.",
        "several malformed parts at once; defects inside platform libraries (cryptographic verification is an ideal model) and the APK parser, which is another module."),
"P31": ("one v2 or v3 signer, or a history of two certificates, of which one part at any depth is missing, empty, of 3 or 8 (1, 4) arbitrary bytes, of a length that is too long by any amount or off by two (any length in thorough), cut, extended or repeated, and signed as it is; a second signature and digest, of a weaker or an unknown algorithm, cut anywhere or with any length, before or after the strong one.",
        "several malformed parts at once; stamps and frosting (P22, P23)."),
"P32": ("fifteen files of all schemes, right and wrong, each by every entry point with six SDK ranges, reader positions and ZIP readers; any one of the first 160 calls of the reader partial (one byte, half, all but one) or failing (with an error or the end of the file), in the signing block and what it covers, in verity, stamp, frosting and rotated signatures, and in the members of v1 signatures with one or two signers and six kinds of faults.",
        "several partial or failing calls in one run; failures while the ZIP directory or AndroidManifest.xml is read, which the ZIP reader (another module) decides."),
"P33": ("any of fifteen files of all schemes verified in two ranges or extracted, then any of them in six ranges; v1 and v2 or v3 signatures of two (three) kinds of keys right, then with any one byte of signature file, signature, signed data or key, a file, the manifest or the signer altered, and the other way around, by one path or by readers, with the first result overwritten; an APK with v2, v3, v3.1, history, stamp and frosting and each of their 14 parts altered; PKCS#7 messages with each part altered.",
        "longer histories; concurrent calls (the repository starts no goroutine and keeps no state; goroutines would run one after another)."),
"P34": ("certificates of one fixed outline, alone or after another, with: any version below 128 or none; serial numbers of 1-3 (thorough: 4) any bytes; signatures of 2 any bytes with any padding; 16 signature algorithms, any other of the RSA family and RSA-PSS with any salt, hashes, trailer; RSA keys with moduli of 1-3 any bytes (also negative) and any 1-byte exponent, DSA keys of 1-byte numbers, EC keys right and with another curve or point, unknown keys, with data behind them; names of two attributes of 12 types in one or two sets, three string types, values of up to 2 letters, truncated; 13x13 dates; ten known extensions with up to 4 any bytes each, and unknown and similar ones, critical or not, with data behind them, with an unknown one before; each part missing or cut and any 3-byte object behind it; v2 and v3 signers with certificates of a negative modulus; v1 signers with 1-3 extensions.",
        "longer numbers and values (the loops over bytes are the same); several malformed parts at once; certificate verification by the parser's own CheckSignature and Verify (not used here); curves other than P-256."),
"P35": ("capabilities of any of the five known bits and at most one (thorough: two) of the other 27; ten algorithms, nine identifiers and 0, and those that differ from them in one bit; two entries of two certificates with any algorithms and flags and signatures of up to two any bytes; lineages of up to three (four) entries of three kinds; printed entries of three certificates, six algorithms, nine flag values, with a write failing at any call.",
  "longer signatures; certificates with names of other attributes (P18, P24)."),
}
