import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe or [],"hook_needed":None}})
M="src/cesr/core/matter/mod.rs"; MT="src/cesr/core/matter/tables.rs"; I="src/cesr/core/indexer/mod.rs"; IT="src/cesr/core/indexer/tables.rs"
C="src/cesr/core/counter/mod.rs"; CT="src/cesr/core/counter/tables.rs"; U="src/cesr/core/util.rs"
p("C01","Qualified text round trip","A primitive created from any supported derivation code and any raw material serialises to qualified text that, read back as text or as text bytes, alone or followed by any other text, gives the same code, size and raw material. The text has exactly the length the code table prescribes and is made of Base64 URL-safe characters only. A code and material that cannot be qualified are refused at creation instead of producing an unserialisable primitive.",
 ["inputs"],"every derivation code, every raw byte string (all lengths and contents), every suffix after the qualified text",
 "Tests check a handful of codes with one or two raw values each; the variable-size codes alone have 2^24 sizes and three lead-byte variants.",
 [M,MT,U],[("constructor, infil/exfil",M),("size tables",MT),("integer to Base64",U)])
p("C02","Qualified binary round trip and text/binary equivalence","A primitive serialises to qualified binary that reads back, alone or followed by anything else, to the same code, size and raw material. The binary form is exactly the Base64 decoding of the text form, so converting whole streams between domains and parsing in either domain give the same primitive.",
 ["inputs"],"every derivation code, every raw byte string, both domains",
 "Tests compare text and binary for a few fixed vectors; pad-bit and lead-byte alignment depends on the code size and the material length jointly.",
 [M,MT,U],[("binfil/bexfil",M),("code_b2_to_b64, code_b64_to_b2, nab_sextets",U)])
p("C03","Parsing is canonical and self-framing","Whenever parsing qualified text or binary succeeds, serialising the resulting primitive reproduces exactly the characters or bytes that were consumed: no two different encodings are accepted for one value. Non-zero pad bits, non-zero lead bytes, Base64 padding characters, unknown codes and truncated material are all refused. How much is consumed depends only on the code and size characters, never on what follows.",
 ["inputs"],"every text string and every byte string given to a parser",
 "Tests reject a few chosen malformed strings; acceptance of a single non-canonical encoding anywhere in the input space breaks identifier uniqueness.",
 [M,MT,U],[("prepad / lead byte / length checks in exfil and bexfil",M)])
p("C04","Indexed signature round trips","Indexed material created from any indexed code, raw signature, index and other index that the code admits reads back from its text form and from its binary form with the same code, raw, index and other index, and the binary form is the Base64 decoding of the text form. Indices that do not fit the code are refused at creation. Codes that carry a single index never report a different other index from the one implied by the code.",
 ["inputs"],"every indexed code, every index and other index (u32), every raw byte string",
 "Tests use a handful of indices per code; limits sit at 64, 4096 and 262144 and differ per code, and text and binary paths have separate checks.",
 [I,IT,U],[("new_with_code_and_raw, infil, binfil, exfil, bexfil",I),("size tables",IT)])
p("C05","Indexed signature parsing is canonical","Whenever parsing indexed text or binary succeeds, serialising the result reproduces exactly what was consumed. Non-zero pad bits or lead bytes, Base64 padding, a non-zero other index on a current-only code, unknown codes and truncated material are refused.",
 ["inputs"],"every text string and every byte string given to the indexed parser",
 "Tests reject a few malformed strings only.",
 [I,IT,U],[("exfil, bexfil",I)])
p("C06","Counter codes round trip within bounds","A counter made from any counter code and any count that fits reads back from text and from binary with the same code and count; a count that does not fit the code is refused. Whenever parsing a counter succeeds, serialising it reproduces exactly what was consumed. A three part semantic version maps to three Base64 characters, one per part, and any part above 63 is refused.",
 ["inputs"],"every counter code, every count (u32), every text and byte string",
 "Tests cover a few counts per code; the big codes have 2^30 counts and the parser goes through a 64-bit intermediate.",
 [C,CT,U],[("infil, binfil, exfil, bexfil, sem_ver",C),("size tables",CT)])
p("C07","Base64 integer coding is exact","Encoding a number as Base64 characters of a given length yields exactly that many characters, most significant first, whenever the number fits, and decoding gives the number back; decoding refuses invalid characters and numbers that do not fit the integer type instead of wrapping. Converting a code between its Base64 characters and its bytes is lossless for every code length.",
 ["inputs"],"all 32 and 64 bit integers, all lengths, all character strings, all byte strings",
 "Tests check fewer than twenty values; the encoder relies on a floating point logarithm and the decoder on shifting, which fail only near word boundaries.",
 [U],[("u32_to_b64, u64_to_b64, b64_to_u32, b64_to_u64, code_b64_to_b2, code_b2_to_b64, nab_sextets",U)])
p("C08","Ordinals keep their value","A number or sequence number given as an integer or as hexadecimal text reads back as the same integer and the same minimal lower-case hexadecimal text, directly and after a trip through text or binary. A number chooses the smallest code that holds the value, and a sequence number always has the fixed 24 character form.",
 ["inputs"],"all 128 bit integers, all hexadecimal strings",
 "Tests check a few values next to the size limits out of 2^128.",
 ["src/cesr/core/number.rs","src/cesr/core/seqner.rs"],[("Number::new, num, numh","src/cesr/core/number.rs"),("Seqner::new, sn, snh","src/cesr/core/seqner.rs")])
p("C09","Date-times survive qualification","A date-time in the supported ISO-8601 profile (32 characters, numeric offset) read back from its qualified form is character for character the original, and its qualified form contains only Base64 URL-safe characters. Anything that cannot be represented in the fixed size is refused.",
 ["inputs"],"every date-time string",
 "Tests use six sample date-times.",
 ["src/cesr/core/dater.rs"],[("character substitution and dts","src/cesr/core/dater.rs")])
p("C10","Base64 strings survive qualification","A string of Base64 URL-safe characters qualified as a text primitive reads back as exactly the same string, provided it does not begin with a character that the encoding reserves for padding (a leading 'A' where the length is a multiple of 4), and strings with other characters are refused.",
 ["inputs"],"every string over the Base64 alphabet, every length",
 "Tests use fewer than ten strings; wad handling depends on the length modulo 4 and on the first characters.",
 ["src/cesr/core/bexter.rs"],[("rawify, bext","src/cesr/core/bexter.rs")])
p("C11","Primitive types only hold their own codes","A typed primitive (number, sequence number, date-time, Base64 string, path, digest, verification key, signature, indexed signature, signer, salt, prefix, self-addressing identifier) can only be obtained through its own constructors, from raw material, text, text bytes or binary, with a derivation code that belongs to that type. Any other well formed material is refused whatever default or explicit code accompanies it. A primitive reports being a digest, or a transferable key, exactly when its code is one.",
 ["inputs"],"every constructor of every typed primitive, every input in each of its forms",
 "Tests reject one or two foreign codes per type, usually through one of the four input forms.",
 ["src/cesr/core/number.rs","src/cesr/core/seqner.rs","src/cesr/core/dater.rs","src/cesr/core/bexter.rs","src/cesr/core/diger.rs","src/cesr/core/verfer.rs","src/cesr/core/cigar.rs","src/cesr/core/siger.rs","src/signing/signer.rs","src/cesr/core/salter.rs","src/prefexing/prefixer.rs","src/cesr/core/saider.rs","src/pathing/pather.rs"],
 [("validate_code in each constructor","src/cesr/core")])
p("C12","Digest verification decides equality of digests","A digest made from data under any digest code verifies that data and no data with another digest. Comparing two digests answers yes exactly when they are the same qualified digest, or have different codes and each verifies the data.",
 ["inputs"],"every digest code, every data string, every pair of digests",
 "Tests compare a few pairs; the comparison has four branches per input form.",
 ["src/cesr/core/diger.rs","src/cesr/crypto/hash.rs"],[("verify, compare","src/cesr/core/diger.rs"),("digest","src/cesr/crypto/hash.rs")])
p("C13","Signatures carry the right code, index and key","Signing with a signer of any suite yields material whose code belongs to the same suite, whose indices are the ones requested, and which carries the signer's verification key; verification with that key uses the suite of the key's own code. The signer's public key is transferable exactly when requested, and current-only, same-index and dual-index signatures use the small code for indices below 64 and the big code otherwise.",
 ["inputs"],"every suite, every index pair, every message, both transferability choices",
 "Tests sample indices around 64 for one suite at a time.",
 ["src/signing/signer.rs","src/cesr/core/verfer.rs","src/cesr/core/siger.rs","src/cesr/core/cigar.rs","src/cesr/crypto/sign.rs"],
 [("sign_indexed, sign_unindexed, derive_verfer","src/signing/signer.rs"),("suite dispatch","src/cesr/crypto/sign.rs")])
p("C14","Threshold satisfaction is exact","A positive numeric threshold is satisfied exactly when at least that many distinct indices are present, and a zero threshold never is. A weighted threshold is satisfied exactly when in every clause the weights at the present positions sum to at least one, computed exactly: when an exact running sum does not fit the fraction type the answer may be an error, never a wrong yes or no. Repeated indices never help, indices beyond the weights never help a weighted threshold, and neither crashes.",
 ["inputs","configurations"],"every threshold expression, every list of indices in any order with repetitions",
 "Tests try a few index lists for each of a dozen thresholds.",
 ["src/cesr/core/tholder.rs"],[("satisfy, satisfy_numeric, satisfy_weighted","src/cesr/core/tholder.rs")])
p("C15","Threshold representations agree","A threshold built from its expression, its value or its qualified form has the same value, size, weightedness and qualified form whichever way it was built, and the qualified form reads back to an equal threshold. Thresholds whose clause weights cannot reach one, negative or over-unity weights and negative thresholds are refused.",
 ["inputs","configurations"],"every numeric threshold and every nested list of weights",
 "Tests check a dozen expressions.",
 ["src/cesr/core/tholder.rs"],[("process_thold, process_limen, process_sith","src/cesr/core/tholder.rs")])
p("C16","Self-addressing identifiers verify exactly their data","Making a structure self-addressing writes, at the identifier label and nowhere else, the digest of the serialisation with that label filled with a dummy of the same length; verification succeeds on the result and fails when any other field, or the identifier itself, differs.",
 ["inputs"],"every structure, label, digest code and serialisation kind",
 "Tests saidify three structures.",
 ["src/cesr/core/saider.rs"],[("derive, saidify, verify","src/cesr/core/saider.rs")])
p("C17","Identifier prefixes verify exactly their inception","A prefix derived from an inception event (keys given by their exact qualified text) verifies that event, also once the prefix is filled in; a basic prefix verifies only an event whose single key is that prefix (and, when non-transferable, that commits to no next keys), and a digest prefix only an event with that digest (taken with the identifier fields filled with dummy text and the version string's size updated). Non-inception events are refused.",
 ["inputs"],"every inception event and derivation code",
 "Tests use a few events per code.",
 ["src/prefexing/prefixer.rs"],[("derive_*, verify_*","src/prefexing/prefixer.rs")])
p("C18","Version strings are fixed-size and invertible","A version string made for any supported protocol, single hexadecimal digit version and size below 2^24 has exactly 17 characters and reads back to the same protocol, version, serialisation kind and size; unsupported protocols and kinds are refused.",
 ["inputs"],"every protocol, version, kind and size",
 "Tests use a few sizes.",
 ["src/cesr/core/common.rs"],[("versify, deversify","src/cesr/core/common.rs")])
p("C19","Untrusted input never crashes the parsers","Parsing any text, text bytes or binary, as any primitive, indexed primitive or counter, ends with a value or an error and never with a panic, out of bounds access, arithmetic overflow or endless loop. The same holds for serialising whatever parsing or construction returned.",
 ["inputs"],"every string and byte string, including empty, truncated, non-ASCII and hostile sizes",
 "Tests feed a few dozen malformed inputs.",
 [M,I,C,U,"src/cesr/core/number.rs","src/cesr/core/seqner.rs","src/cesr/core/bexter.rs"],[("length checks before slicing",M),("length checks before slicing",I),("length checks before slicing",C)])
p("C20","Paths address the right part of a structure","A path built from a list of Base64 labels (non-empty, without the separator '-') or positions reads back as the same list of components, other labels are refused, and resolving it in a structure returns the part reached by following those steps in order, or an error when a step does not exist. A path is under another exactly when that other is a leading part of it, stripping and re-rooting are inverse, and the empty path denotes the whole structure.",
 ["inputs"],"every structure and every path",
 "Tests resolve a dozen paths in one structure.",
 ["src/pathing/pather.rs"],[("path, root, strip, starts_with, resolve","src/pathing/pather.rs")])
p("C21","Salted key derivation is a fixed function","Keys derived from a salt depend only on the salt, the path, the tier and the code: deriving again, or deriving a run of keys from any start position, gives the same keys, and the key at a position is the same whatever run it is derived in. Explicit tiers override the salt's own tier, and temporary mode always uses the minimum tier. A run of random keys has the requested number, codes and transferability, and its keys differ.",
 ["inputs","configurations"],"every salt, path, tier, code, count and start",
 "Tests derive a few fixed keys; stretching is slow so few combinations are tried.",
 ["src/cesr/core/salter.rs","src/signify/creating.rs"],[("stretch, signer, signers","src/cesr/core/salter.rs"),("SaltyCreator::create","src/signify/creating.rs")])
p("C22","Structured data survives JSON","Any structure that can be read from JSON is written back as JSON with the same values (integers and floats kept apart) in the same key order, and reading that back gives an equal structure.",
 ["inputs"],"every JSON document",
 "Tests read a few small documents.",
 ["src/data.rs"],[("conversion and to_json","src/data.rs")])
p("C23","Events and credentials keep raw and content consistent","An event or credential built from its content has raw bytes that are the serialisation of that content with the actual size in its version string; built from raw bytes it has the content those bytes encode, ignores what follows the declared size, and refuses truncated input and content whose identifier is missing or is not a digest under the expected code. Its pretty form is the indented JSON of the content, cut at the requested length (at a character boundary).",
 ["inputs"],"every event and credential, every raw byte string",
 "Tests build a handful of events.",
 ["src/cesr/core/serder.rs","src/cesr/core/creder.rs","src/cesr/core/sadder.rs"],[("exhale, inhale","src/cesr/core/sadder.rs")])
p("C24","Code tables are complete and consistent","Every published derivation, indexed and counter code has sizes in its table; the hard size implied by the first characters is the length of the code in both domains; fixed sizes are whole Base64 quadlets that fit code and material exactly; and no code is a prefix of another.",
 ["configurations"],"every code of the three code tables, every possible first character or sextet",
 "Tests spot-check single entries; consistency is a relation between tables.",
 [MT,IT,CT],[("sizage, hardage, bardage, Codex",MT),("sizage, hardage, bardage, Codex",IT),("sizage, hardage, bardage, Codex",CT)])
p("C25","Accessors of events and credentials report what the content says","The keys, next-key digests, witnesses, thresholds, sequence number, first-seen number, prefix and establishment flag of an event, and the issuer, schema, subject, status and chains of a credential, are exactly what its content holds under those labels, in that order. An optional part that is absent is reported as absent; a required part that is missing, or any part that is malformed or of the wrong kind, is an error and never a wrong value or a panic (the subject alone requires the content to have an attribute section).",
 ["inputs"],"every event and credential, with any value under any label",
 "Tests read a few accessors of well-formed events; the rules on what is refused, in which position of a list, and on optional parts hold for every content.",
 ["src/cesr/core/serder.rs","src/cesr/core/creder.rs"],[("verfers, digers, werfers, tholder, ntholder, sner, fner, pre, est","src/cesr/core/serder.rs"),("issuer, schema, subject, status, chains","src/cesr/core/creder.rs")])
p("C26","Messages and receipts frame their parts","A message with attached signatures is exactly the raw bytes of its event followed, when controller signatures are given, by the seal (where the keys were established: the last event, or the event with a given number and digest) and then by each group: the counter code of the group with the number of its signatures, and the signatures in order. Reading the groups back from the front, whatever follows, gives the same codes, counts and signatures, and a group with more signatures than its counter can count is refused. A receipt is the event whose content is exactly the version, the receipt type, the identifier of the receipted event, its prefix and its number, in that order.",
 ["inputs"],"every event, any number and kind of signatures, with and without seals",
 "No test covers messages with seals or many signatures; framing has to hold for every list of signatures and whatever follows.",
 ["src/messaging.rs","src/receipting.rs","src/seal.rs"],[("messagize","src/messaging.rs"),("receipt","src/receipting.rs"),("Seal::s","src/seal.rs")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80
print(len(P))
