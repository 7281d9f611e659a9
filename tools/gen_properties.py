#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in one place so that wording stays consistent).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","SM3 equals the standard for every message and every chunking",
"For every byte string, including the empty one, the SM3 digest is the one defined by GM/T 0004-2012. It is the same whether the message is hashed in one call or written to a hasher in any sequence of pieces of any lengths, empty pieces included, and however long the message is.",
["inputs","histories"],"every message of every length, every way of cutting it into writes",
"Tests hash two messages in one write each (and compare one 3-write run with itself); block, word and length-field boundaries and chunkings are unbounded.",
["sm3/sm3.go"],[("padding and length field","sm3/sm3.go:finish,processLength"),("word buffering across writes","sm3/sm3.go:Write,processWord"),("compression","sm3/sm3.go:processBlock")],
[("xBuf/xBufOff","bytes of an incomplete word","sm3/sm3.go"),("inWords/xOff","words of an incomplete block","sm3/sm3.go"),("byteCount","total length","sm3/sm3.go")],["sm3.New().Write/Sum","sm3.Sum"])

p("C02","The SM3 hasher honours the hash contract in every call history",
"In every sequence of Write, Sum and Reset calls, Sum appends to its argument the digest of exactly the bytes written since creation or the last Reset, and calling it changes nothing that any later call returns. Hashers never influence one another, Write never modifies or keeps its argument and always reports all bytes written, and the advertised digest size (32) and block size (64) are those of SM3, so that generic constructions such as HMAC over it give the standard's values.",
["histories","inputs"],"all interleavings of operations on one or several hashers, all keys of a keyed hash",
"Tests call Sum once at the end of a hasher's life; whether it disturbs the state is a property of histories.",
["sm3/sm3.go"],[("Sum works on a snapshot","sm3/sm3.go:Sum"),("Reset restores the initial state","sm3/sm3.go:Reset"),("Size/BlockSize","sm3/sm3.go")],None,["hash.Hash methods","crypto/hmac over sm3.New"])

p("C03","SM4 block transform equals the standard and decryption inverts it",
"For every 16-byte key and 16-byte block, SM4 encryption yields the ciphertext defined by GB/T 32907-2016 and decryption yields back the block, also when source and destination are the same or overlapping memory. Only the first 16 bytes of the destination change, key and source are never modified and not retained, keys of any other length are refused with an error, and blocks shorter than 16 bytes are refused with a panic before anything is written.",
["inputs","histories"],"all keys, all blocks, all buffer layouts, all interleavings of encrypt and decrypt on one cipher",
"Two keys and a handful of blocks are tested; a wrong table entry or an aliasing error shows only for other bytes or layouts.",
["sm4/sm4.go"],[("key schedule","sm4/sm4.go:expandKey"),("rounds","sm4/sm4.go:processBlock"),("substitution box and constants","sm4/sm4.go:sBox,cK,fK")],None,["sm4.NewCipher","cipher.Block.Encrypt/Decrypt"])

p("C04","SM4 ECB and CBC are exact, invertible and reject bad lengths",
"For every key, IV and input that is a whole number of blocks (including none), ECB and CBC encryption give exactly the mode's defined ciphertext and decryption gives back the plaintext, with no argument modified and no result sharing memory with an argument. Inputs that are not whole blocks, and keys or IVs that are not 16 bytes, are refused with an error - never a panic, never output.",
["inputs"],"all keys, IVs, message lengths and contents",
"Tests use one or two short messages per mode with valid lengths only.",
["sm4/sm4.go"],[("mode loops and length checks","sm4/sm4.go:ECBEncrypt,ECBDecrypt,CBCEncrypt,CBCDecrypt")],None,["sm4.ECB*/CBC* functions"])

p("C05","Padding is reversible, minimal, and never touches the caller's bytes",
"For every byte string and every block size from 1 to 255, PKCS5 padding appends between 1 and blocksize bytes, each equal to their count, so that the length is a multiple of the block size, and unpadding returns the original; zero padding appends between 1 and blocksize zero bytes, and removing that many returns the original. Padding never writes into memory of its argument, including spare capacity behind it. Unpadding never panics on any byte string: it removes the number of bytes given by the last byte, or returns nil when the string is empty or shorter than that.",
["inputs"],"all byte strings, all block sizes, all slice capacities",
"Tests pad three short strings with block size 16 and never look behind the slice or unpad malformed data.",
["util/padding.go"],[("pad length computation","util/padding.go:PKCS5Padding,ZeroPadding"),("length check on removal","util/padding.go:PKCS5UnPadding")],None,["util padding functions"])

p("C06","SM2 keys are always valid, and import/export is exact",
"Whatever the random source returns, a generated SM2 key pair has its private value in [1, n-2] and its public point equal to that multiple of the generator of the standard SM2 curve, and a failing random source gives an error and no key. Importing 64 raw bytes succeeds exactly when they encode a point of the curve, importing 32 raw bytes as a private key succeeds exactly when the value lies in [1, n-2], any other length is an error, and export of an imported key returns the same bytes (fixed length, leading zeros kept; 0x04 in front in uncompressed form).",
["inputs","fault_sequences"],"all random sources, all raw encodings",
"Tests generate keys with the operating system's generator and never import; boundary scalars, leading zeros and invalid points have negligible probability there.",
["sm2/sm2.go","util/ec.go"],[("generation","sm2/sm2.go:GenerateKey"),("raw codecs","sm2/sm2.go:RawBytesToPublicKey,RawBytesToPrivateKey,GetRawBytes,GetUnCompressBytes,bigIntTo32Bytes"),("public key derivation","sm2/sm2.go:CalculatePubKey"),("domain parameters","sm2/sm2.go:initSm2P256V1")],None,["sm2 key functions"])

p("C07","Every SM2 signature is a valid standard signature",
"For every private key in [1, n-2], user ID (absent meaning the default one, up to 8191 bytes), message (empty included) and random source, signing terminates with r and s in [1, n-1] that satisfy the SM2 signature equation of GM/T 0003.2 for a nonce in [1, n-1], with the hash covering ID length, ID, curve parameters, public key and message; it never releases values with r = 0, r + k = n or s = 0 but draws a new nonce. The signature verifies under the matching public key with the same ID and message. Keys outside the range and longer IDs are refused with an error; the arithmetic is that of whatever curve the key carries.",
["inputs","fault_sequences"],"all keys, IDs, messages and nonce sequences; on small curves literally all of them",
"Tests sign with random nonces on the 256-bit curve, where the retry conditions and short coordinates practically never occur.",
["sm2/sm2.go"],[("nonce loop","sm2/sm2.go:SignToRS,nextK"),("identity hash","sm2/sm2.go:getZ,calculateE"),("32-byte encoding of coordinates","sm2/sm2.go:bigIntTo32Bytes")],None,["sm2.SignToRS","sm2.Sign"],None)

p("C08","SM2 verification accepts exactly the valid signatures",
"For every public key, user ID, message and pair of integers (r, s), verification returns true if and only if the public key is a point of its curve other than infinity, the ID is at most 8191 bytes, 1 <= r, s <= n-1, r + s is not 0 modulo n, and r = (e + x1) mod n for the point (x1, y1) = sG + (r+s)P not at infinity. It never panics; in particular a signature never verifies for a different message, ID or key for which the equation fails.",
["inputs"],"all keys, hashes, r and s; on small curves the full product space",
"Tests only verify good signatures; what must be refused (out-of-range values, r+s=n, other key, other ID, invalid point) is never tried.",
["sm2/sm2.go","util/ec.go","util/bigint.go"],[("range checks","sm2/sm2.go:VerifyByRS"),("t = 0 and infinity checks","sm2/sm2.go:VerifyByRS")],None,["sm2.VerifyByRS","sm2.Verify"])

p("C09","Signature encoding is canonical DER and nothing else verifies",
"Encoding (r, s) gives the DER SEQUENCE of two INTEGERs, and decoding gives back r and s, for all integers. Decoding and verification accept no other byte string for a signature: truncated, extended, non-minimally encoded, wrongly tagged or otherwise altered encodings are refused without panic, so a valid signature has exactly one accepted encoding.",
["inputs"],"all integer pairs, all byte strings near an encoding",
"Tests decode only what they just encoded, with full-length values.",
["sm2/sm2.go"],[("DER codec","sm2/sm2.go:MarshalSign,UnmarshalSign"),("use in verification","sm2/sm2.go:Verify")],None,["sm2.MarshalSign","sm2.UnmarshalSign","sm2.Verify"])

p("C10","SM2 encryption is standard-conformant and decryption inverts it",
"For every valid key pair, every plaintext of any length including zero, both ciphertext layouts and every random source, encryption terminates and yields C1 = kG for some nonce k in [1, n-1], C2 = plaintext XOR KDF(kP) and C3 = SM3(x2 || plaintext || y2) as in GM/T 0003.4 with coordinates as fixed-length strings, in exactly the requested order, and never a nonempty plaintext in the clear because of an all-zero key stream (a new nonce is drawn). Decryption with the same layout returns exactly the plaintext; an unknown layout or an invalid public key is refused with an error; the arithmetic is that of whatever curve the key carries.",
["inputs","fault_sequences"],"all keys, nonces, plaintext lengths and contents; on small curves all keys and nonces",
"Tests encrypt one 10-byte message with random nonces; short messages with zero key stream, leading-zero coordinates and long key streams are out of reach.",
["sm2/sm2.go"],[("encryption loop","sm2/sm2.go:Encrypt,notEncrypted"),("key derivation counter","sm2/sm2.go:kdf"),("layout","sm2/sm2.go:Encrypt,Decrypt")],None,["sm2.Encrypt","sm2.Decrypt"])

p("C11","SM2 decryption rejects everything that is not a genuine ciphertext",
"Decrypting any byte string other than a ciphertext made for that key and layout - altered in any byte, truncated or extended at either end, with C1 wrongly prefixed, off the curve or with coordinates out of range, in the other layout, or made for another key - returns an error and no plaintext. It never panics and never modifies its input.",
["inputs"],"all alterations of ciphertexts, all short byte strings",
"Tests never decrypt a bad ciphertext.",
["sm2/sm2.go"],[("length and point checks","sm2/sm2.go:Decrypt"),("C3 comparison","sm2/sm2.go:Decrypt")],None,["sm2.Decrypt"])

p("C12","SM2 ciphertext DER codec is exact and total",
"For every well-formed raw ciphertext and both layouts, DER encoding yields the GM/T 0009 SEQUENCE (x INTEGER, y INTEGER, then hash and ciphertext OCTET STRINGs in the layout's order) and decoding it returns the identical raw ciphertext, for all coordinate values including ones with leading zero bytes and all lengths. Malformed input to either direction - too short, not starting with 0x04, truncated or trailing data, negative or over-long coordinates, wrong hash length, unknown layout - is refused with an error, never a panic.",
["inputs"],"all raw ciphertexts, all byte strings near an encoding",
"Tests convert one random ciphertext per layout; leading zeros occur there with probability 1/128 and malformed input never.",
["sm2/sm2.go"],[("codec","sm2/sm2.go:MarshalCipher,UnmarshalCipher")],None,["sm2.MarshalCipher","sm2.UnmarshalCipher"])

p("C13","SM2 key exchange: both parties derive the standard's key and tags",
"For all static and ephemeral key pairs, identities up to 8191 bytes and requested key lengths in bits, a run between initiator and responder ends with both holding the same key, of ceil(bits/8) bytes, equal to the value defined by GM/T 0003.3 (coordinates as fixed-length strings), with the responder's S1 accepted by the initiator and the initiator's S2 accepted by the responder. Absent identities count as empty ones, longer ones are refused with an error, and the arithmetic is that of whatever curve the keys carry.",
["inputs"],"all key quadruples (literally all on small curves), identities and key lengths",
"One test runs one exchange with random keys and 128 key bits and does not even compare the two keys.",
["sm2/keyexchange.go"],[("shared point","sm2/keyexchange.go:calculateU,reduce"),("key derivation","sm2/keyexchange.go:kdfForExch"),("tags","sm2/keyexchange.go:calculateInnerHash,s1,s2")],None,["sm2.CalculateKeyWithConfirmation","sm2.ResponderConfirm"])

p("C14","SM2 key exchange never succeeds with a mismatched peer",
"If the two parties differ in any part of the transcript - an identity, a static or ephemeral public key, swapped roles, or any altered, truncated, extended or missing confirmation tag - the initiator returns an error and no key, and the responder's final comparison fails. Peer points that are not on the curve or are the point at infinity, and runs whose shared point is infinity, are refused with an error; nothing panics.",
["inputs"],"all single deviations of a run, all invalid points (literally all key choices leading to infinity on small curves)",
"The test only runs the successful exchange.",
["sm2/keyexchange.go"],[("tag comparison","sm2/keyexchange.go:CalculateKeyWithConfirmation,ResponderConfirm"),("point validation","sm2/keyexchange.go:CalculateKeyWithConfirmation")],None,["sm2.CalculateKeyWithConfirmation","sm2.ResponderConfirm"])

p("C15","Nonces are fresh, uniform and never survive a random source failure",
"Each signature and each encryption draws its nonce from the system random source at that moment, and the nonce is uniform over [1, n-1] when the source is uniform: equal source output gives the same result, and different nonce draws are used for successive operations, with no bits discarded, reused or fixed. If the source fails or ends at any point of an operation, key generation, signing, encryption, certificate request creation and certificate issuance return that as an error with no output, and short reads by the source are completed rather than used as they are.",
["fault_sequences","inputs"],"all outputs of the source (literally all on small curves), all fault points and read sizes",
"Tests use the operating system's generator, which never fails, and cannot see a bias.",
["sm2/sm2.go","sm2/cert/gmx509.go"],[("nonce drawing","sm2/sm2.go:nextK"),("error propagation","sm2/sm2.go:SignToRS,Encrypt,GenerateKey")],None,["sm2.SignToRS/Sign/Encrypt/GenerateKey","cert.CreateCertificateRequest, cert.IssueCertificateBySoftCAKey"])

p("C16","Operations depend only on their arguments and modify none of them",
"In every sequence of library calls, each call returns what it would return as the first call of a fresh process with the same arguments (and random source output), whatever was called before and with whatever success. No call modifies a key, message, ID, IV, template or other argument, and overwriting a result or an argument after the call does not change what other calls return.",
["histories"],"all sequences of calls over an alphabet covering every public operation",
"Tests run each operation on its own with fresh objects; leftover state is only visible in particular sequences.",
["sm2/sm2.go","sm2/keyexchange.go","sm3/sm3.go","sm4/sm4.go","sm2/cert/gmx509.go","util/bigint.go","cryptobyte/builder.go"],[("fresh temporaries","util/bigint.go, digest and buffer allocation in every operation")],None,["all public functions"])

p("C17","Concurrent use gives the sequential results under every schedule",
"Public functions may be called from several goroutines at once, sharing keys, curve parameters, a block cipher, certificates, requests and templates (anything except a single hasher, builder or parser object), and every call returns exactly what it returns when run alone, under every interleaving and without data races or deadlock. This includes the first uses of the library in a process.",
["schedules"],"all interleavings of two or three calls up to a preemption bound at statement granularity",
"No test uses more than one goroutine.",
["sm2/sm2.go","sm2/keyexchange.go","sm3/sm3.go","sm4/sm4.go","sm2/cert/gmx509.go","util/bigint.go","cryptobyte/builder.go"],[("no shared mutable state","package-level variables are only read after initialisation")],[("sm2P256V1","shared curve parameters","sm2/sm2.go"),("sm4Cipher.enc/dec","round keys of a shared cipher","sm4/sm4.go")],["all public functions"],"statement-level scheduling points are inserted into a build overlay of the current sources; /repo is not changed")

p("C18","Certificate requests carry exactly the template and verify",
"For every template, key pair and user ID, a created certificate request is a DER PKCS#10 request that parses back to the template's subject, public key, DNS names, e-mail and IP addresses, URIs, attributes and extensions, in order, and its signature verifies with the same user ID under its own public key. Explicit SAN extensions override the name lists, extensions given in an extension-request attribute override both, every other extension appears once, and a given raw subject is used verbatim. The template is never modified, so it can be reused and changed for further requests.",
["inputs","histories"],"all templates over the supported fields, repeated use of one template",
"One template is tested, and of the result only the public key and signature are looked at.",
["sm2/cert/gmx509.go"],[("extension merging","sm2/cert/gmx509.go:CreateCertificateRequest"),("parsing","sm2/cert/gmx509.go:parseCertificateRequest,parseCSRExtensions,parseSANExtension")],None,["cert.CreateCertificateRequest","cert.ParseCertificateRequest","cert.VerifyDERCSRSign"])

p("C19","Any change to a signed request or certificate is detected",
"If any byte of a certificate request is changed, it is truncated or extended, or its signature is written in another encoding, then parsing it fails or its signature no longer verifies; nor does it verify under another user ID. The same holds for a certificate against its issuer's public key, whose signed bytes are exactly the to-be-signed structure handed out before issuing. Requests and certificates that name another signature algorithm, public key algorithm or curve, or whose public key is not a point of the SM2 curve, are refused.",
["inputs"],"all single-byte changes, truncations and extensions; all substituted identifiers and points",
"Tests verify one untouched request and never check a certificate's signature.",
["sm2/cert/gmx509.go","sm2/sm2.go"],[("raw to-be-signed bytes","sm2/cert/gmx509.go:VerifyCSRSign,parseCertificate"),("algorithm checks","sm2/cert/gmx509.go:parseCertificateRequest,parseCertificate,parsePublicKey")],None,["cert.VerifyDERCSRSign","cert.ParseCertificate + sm2.Verify"])

p("C20","Issued certificates carry exactly the template's fields",
"For every certificate template, issuer and request, the issued certificate is DER X.509 v3 that an independent decoder and this library's parser both read back as given: serial number (any integer), validity (to the second, UTC, any year), issuer and subject names, the request's public key, key usage, extended key usages, basic constraints and path length, key identifiers, SANs, OCSP, issuer and CRL URLs, policies, name constraints, and extra extensions, each extension present exactly when the template asks for it and with the right criticality. Extra extensions override the generated ones; the authority key identifier is the issuer's subject key identifier unless the certificate is self-issued; a missing serial number or an unknown extended key usage gives an error, not a panic.",
["inputs"],"all combinations of template fields over boundary values",
"One template is issued and only its DNS names are printed, not checked.",
["sm2/cert/gmx509.go","cryptobyte/builder.go","cryptobyte/asn1.go"],[("extension building","sm2/cert/gmx509.go:buildExtensions"),("assembly","sm2/cert/gmx509.go:CreateCertificateInfo,CreateCertificate,IssueCertificateBySoftCAKey"),("parsing","sm2/cert/gmx509.go:parseCertificate")],None,["cert.CreateCertificateInfo","cert.CreateCertificate","cert.ParseCertificate","cert.FillCertificateTemplateByCSR"])

p("C21","Parsers terminate without panic on any bytes and accept no trailing data",
"Every byte string given to the certificate, certificate request, signature or ciphertext parsers, to SM2 decryption and verification, or to the raw key importers either yields a value or an error: no call panics, hangs or exhausts memory. Whatever a certificate or request parser accepts is one complete DER element equal to the raw bytes it reports, and any trailing byte makes it fail.",
["inputs"],"all byte strings near valid structures: every single-byte substitution, truncation, insertion, deletion; all very short strings; every structure with one element replaced",
"Tests parse only well-formed data produced a moment before.",
["sm2/cert/gmx509.go","sm2/sm2.go","cryptobyte/asn1.go","cryptobyte/string.go"],[("error returns in all decoders","sm2/cert/gmx509.go, sm2/sm2.go")],None,["cert.ParseCertificate","cert.ParseCertificateRequest","sm2.UnmarshalSign/UnmarshalCipher/Decrypt/Verify/RawBytesTo*"])

p("C22","Names in SANs and name constraints are accepted exactly when well-formed",
"A certificate whose name constraints contain a DNS, e-mail, URI or IP constraint parses if and only if that value is well-formed (domain labels nonempty and of visible ASCII characters, an optional leading period where allowed, mailbox syntax of RFC 2821 with quoting, no IP literal as URI domain, IP with contiguous mask and right length), and the constraint is then reported exactly as given, in its right list and order, with the extension's criticality. URI and IP entries of a subject alternative name parse exactly when well-formed, and every entry is reported in the list of its kind.",
["inputs"],"all strings up to a length over an alphabet of the syntactically relevant characters; all mask bytes",
"No test contains a name constraint, an e-mail, URI or IP name.",
["sm2/cert/gmx509.go","cryptobyte/asn1.go"],[("grammar","sm2/cert/gmx509.go:domainToReverseLabels,parseRFC2821Mailbox,isValidIPMask,isIA5String"),("traversal","sm2/cert/gmx509.go:parseNameConstraintsExtension,parseSANExtension")],None,["cert.ParseCertificate","cert.ParseCertificateRequest"])

p("C23","DER values written by the builder are canonical and read back equal",
"For every integer (machine-sized or big, of either sign), enumeration, boolean, octet string, bit string, object identifier (components below 2^28), generalized time (in UTC) and NULL, the builder's encoding equals the unique DER encoding, and reading it returns the value and consumes exactly that element, also when the optional readers are used and the element is present or absent (then the default is given and nothing consumed). Encodings of integers, booleans, identifiers, bit strings and times that are not canonical, carry another tag or do not fit the destination are refused.",
["inputs"],"all integers of up to three bytes and all boundaries beyond, all short contents under each tag",
"The package has no tests.",
["cryptobyte/asn1.go"],[("encoders","cryptobyte/asn1.go:AddASN1*"),("decoders","cryptobyte/asn1.go:ReadASN1*,ReadOptionalASN1*")],None,["cryptobyte.Builder.AddASN1*","cryptobyte.String.ReadASN1*"])

p("C24","The DER reader accepts exactly minimal well-formed elements",
"Reading an element from any byte string succeeds exactly when the string starts with a low-tag-number identifier, a definite length in minimal form of at most four octets, and that many content bytes; it then yields exactly the tag, content or whole element, and leaves exactly the rest. Peeking, skipping, optional reads, fixed-width integers and length-prefixed reads likewise consume exactly what they report and fail when bytes are missing. No reader panics on any input.",
["inputs","histories"],"all byte strings up to three bytes and all longer ones over a boundary alphabet, all sequences of reads",
"The package has no tests.",
["cryptobyte/asn1.go","cryptobyte/string.go"],[("header parsing","cryptobyte/asn1.go:readASN1"),("cursor","cryptobyte/string.go:read,readLengthPrefixed,Skip")],None,["cryptobyte.String methods"])

p("C25","Every builder program yields its exact bytes or an error",
"For every sequence and nesting of append and length-prefixed operations, growing or with a fixed buffer, the builder yields exactly the concatenated bytes with correct big-endian or DER lengths whatever the content length, after any initial contents. It yields an error instead, and no bytes, exactly when a length does not fit its prefix, a fixed buffer is too small, an unsupported tag, invalid identifier, unrepresentable time or failing value is added, or a continuation raises a build error; other panics pass through and writing to a parent while its child is open panics. A fixed builder never writes outside its buffer, and an error, once recorded, is never lost.",
["programs","histories"],"all builder programs up to a number of operations and nesting depth, all buffer sizes, content lengths around every prefix boundary",
"The package has no tests; the certificate code uses only short, growing builders.",
["cryptobyte/builder.go","cryptobyte/asn1.go"],[("child flushing","cryptobyte/builder.go:addLengthPrefixed,flushChild"),("capacity check","cryptobyte/builder.go:add"),("panic recovery","cryptobyte/builder.go:callContinuation")],[("result/offset/child","output buffer, start of this builder's part, open child","cryptobyte/builder.go")],["cryptobyte.Builder methods"])

p("C26","Foreign certificates and requests are reported exactly as they encode",
"For every well-formed SM2 certificate or certificate request, whoever issued it and however it is laid out, the parser reports exactly the encoded version, serial number, names (in order, every attribute kept), validity instants (UTC and generalized time, two-digit years pivoting at 1950), public key, signature, raw parts, and for each known extension its exact values: key usage bits, CA flag and path length (absent, zero and positive told apart), key identifiers, SANs, every URI among the full names of every CRL distribution point whatever other parts the points have, OCSP and issuer URLs, policy identifiers with or without qualifiers, known and unknown extended key usages in order. Every extension appears in order with its criticality and value, and the critical ones the parser does not interpret, and no others, are listed as unhandled. A known extension whose value is not well-formed, or has trailing data, makes parsing fail.",
["inputs"],"all values of each extension over its listed forms, all sequences of extensions up to a length, all validity forms, names and versions",
"Tests parse only what this library has just written, whose layout uses few of the allowed forms.",
["sm2/cert/gmx509.go"],[("extension decoding","sm2/cert/gmx509.go:parseCertificate,parseSANExtension"),("request attributes","sm2/cert/gmx509.go:parseRawAttributes,parseCSRExtensions")],None,["cert.ParseCertificate","cert.ParseCertificateRequest"])

p("C27","The curve's parameters and group operations are the standard's",
"GetSm2P256V1 gives, at every call, the curve of the standard: P, A, B, N, base point and size, also through Params. On it, and on any other curve of prime order with a = -3 that keys carry, IsOnCurve is true exactly for the affine points with both coordinates in [0, p). For all points, with (0, 0) for infinity, and for scalars of any byte length (empty, with leading zeros, zero, n and above) Add, Double, ScalarMult and ScalarBaseMult give the result of the group law, equal and opposite points and infinity included, and change none of their arguments. IsEcPointInfinity is true for (0, 0) only, and ZForAffine is 0 for it and 1 for every other pair.",
["inputs"],"all points, pairs of points, coordinates and scalars of small curves; boundary points and scalars of the SM2 curve",
"Tests use the curve only inside signing and encryption with random keys, which never meet equal or opposite points, infinity, or long scalars.",
["sm2/sm2.go","util/ec.go"],[("parameters","sm2/sm2.go:initSm2P256V1"),("curve type and its methods","sm2/sm2.go:P256V1Curve"),("helpers","util/ec.go")],None,["sm2.GetSm2P256V1","P256V1Curve methods","util.IsEcPointInfinity/ZForAffine"])

with open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
