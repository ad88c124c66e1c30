import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))

p("C01","Sponge decryption inverts encryption and keeps both parties in step",
"For every sponge state and every plaintext of any length, decrypting the ciphertext produced from an equal state returns exactly the plaintext and leaves the decrypting state equal to the encrypting one, so all later squeezes, tags and encryptions agree. This holds in place (same memory for input and output), out of place, and for non-overlapping pieces of one container, across any number of rate blocks and whatever partial block was already buffered.",
["inputs","histories"],"all sponge states reachable by any history of operations, all plaintext lengths and contents, in-place and non-overlapping buffers at any offsets",
"The tests use fresh states, one message and roughly a hundred lengths, always with buffers that start at the beginning of their own container; block-boundary splits, partially filled states and sub-slices of one container are not reached.",
["src/spongos.rs","src/trits/slice.rs","src/trits/b1t1.rs"],
[("Spongos::encr / Spongos::decr","src/spongos.rs"),("copy_add/copy_sub/swap_add/swap_sub","src/trits/slice.rs, src/trits/b1t1.rs"),("Spongos::update / commit","src/spongos.rs"),("is_same","src/trits/slice.rs")],
[dict(name="outer buffer + position",meaning="rate part of the state and number of trits already consumed in the current block",where="src/spongos.rs Outer")],
["Spongos::encr*, decr* results, subsequent squeeze"])

p("C02","Sponge output depends only on the operations' trits, not on how they are chunked",
"Absorbing, squeezing, encrypting or decrypting a sequence of trits in one call gives the same outputs and the same final state as doing it in any number of consecutive calls, including empty ones. Committing with nothing buffered changes nothing; squeeze-and-compare answers true exactly when squeezing would have produced the given trits and leaves the same state; a fork continues exactly like the original without affecting it; and joining equals absorbing 243 trits squeezed from the joined sponge.",
["inputs","histories"],"all states, all trit sequences and all ways of splitting them, any history before",
"Tests hash a few sizes and compare results of single calls; they do not split, interleave or continue after a comparison or fork.",
["src/spongos.rs"],
[("Spongos::absorb/squeeze/squeeze_eq/encr/decr loops","src/spongos.rs"),("Spongos::update/commit","src/spongos.rs"),("Spongos::fork/fork_at/join","src/spongos.rs")],
[dict(name="outer buffer + position",meaning="rate part and position",where="src/spongos.rs Outer")],["Spongos public methods"])

p("C03","Balanced-ternary integers read back as written and touch only their own trits",
"Writing a signed 1-, 3-, 6-, 9- or 18-trit integer within its range (or an unsigned trit or tryte) at any position and reading it back gives the same value, the stored trits are its little-endian balanced-ternary digits, and no other trit changes. Reading any valid trits yields an in-range value whose re-encoding is the same trits, and the balanced remainder/quotient helpers satisfy t = q*m + r with r in the balanced range for every input their documentation allows.",
["inputs"],"all integer values in range, all trit contents, all positions in a buffer",
"Tests round-trip a few values; the 18-trit range has 387 million values and the helper range is all of i32/usize.",
["src/trits/b1t1.rs","src/trits/util.rs","src/trits/slice.rs"],
[("put1..put18/get1..get18/put_trit/put_tryte","src/trits/b1t1.rs"),("mods1/mods3/mods9/mods*_usize","src/trits/util.rs")],None,["TritSlice::get*, TritSliceMut::put*"])

p("C04","Trit, tryte and text encodings are exact inverses and reject other characters",
"The 27 letters 9, A..Z correspond one-to-one to the trytes and to the signed values -13..13, conversions in both directions are inverse, and every other character is rejected. Parsing a string of n such letters gives the 3n trits whose text rendering is the same string; a string with a foreign character is rejected; trits whose count is not a multiple of three render with the last tryte zero-padded, and parsing into a shorter buffer succeeds only when everything that does not fit is zero.",
["inputs"],"all characters, all strings of any length, all trit contents and lengths",
"Tests use a handful of strings over a few letters.",
["src/trits/util.rs","src/trits/slice.rs","src/trits/trits.rs"],
[("tryte_to_char/tryte_from_char/trint3_to_char/trint3_from_char/tryte_*_trint3","src/trits/util.rs"),("put_char/get_char/from_str/to_str","src/trits/slice.rs"),("Trits::from_str/to_str/cycle_*","src/trits/trits.rs")],None,["Trits::from_str, to_str, Display"])

p("C05","Slice operations address exactly the selected trits of the buffer",
"Taking, dropping, splitting, advancing, picking up or diffing part of a slice yields exactly the corresponding trit range of the same buffer and never one outside it, and the min-variants clamp to what is available. Copying, zeroing, filling, cycling and comparing act on exactly the trits of the given slices and leave all others unchanged; same-location and overlap tests are exact; chunking and cloning reproduce the contents; equality holds exactly when lengths and trits agree.",
["inputs"],"all buffers, ranges, offsets and contents",
"Tests touch slices only indirectly, at a few offsets; range arithmetic and aliasing must hold for all offsets.",
["src/trits/slice.rs","src/trits/trits.rs","src/trits/b1t1.rs"],
[("SliceRange","src/trits/slice.rs"),("TritSliceT/TritSliceMutT methods","src/trits/slice.rs"),("unsafe_copy/unsafe_set_zero/unsafe_eq","src/trits/b1t1.rs"),("TritsT","src/trits/trits.rs")],
[dict(name="(n,d,p)",meaning="end, start and base pointer of a slice",where="src/trits/slice.rs")],["TritSlice*, Trits public methods"])

p("C06","Incrementing trits counts through every value before wrapping",
"Incrementing a slice read as a little-endian base-3 number adds one with carry, reports success while it does not wrap, and reports failure exactly when every trit was 2, leaving all zeros. Consequently 3^n successive increments of an n-trit counter visit 3^n different values, so nonces derived by incrementing do not repeat earlier.",
["inputs","histories"],"all slice lengths and contents, all sequences of increments",
"The tests use increments only to vary nonces and never check the resulting value.",
["src/trits/slice.rs"],[("TritSliceMutT::inc","src/trits/slice.rs")],None,["TritSliceMut::inc"])

p("C07","Size fields have one canonical encoding that round-trips for every size",
"Every size value encodes to the announced number of trytes and decodes back to the same value consuming exactly that encoding, in plain, absorbed and masked form. Decoding any byte-for-byte different or malformed field either fails or yields a value whose encoding is exactly what was read: non-canonical encodings, values out of range and truncated input are reported as errors.",
["inputs"],"all usize values the format can represent and all trit strings",
"Tests try a few dozen small values; overflow, truncation and non-canonical fields need all inputs.",
["src/pb3/typ/size.rs"],[("sizeof_sizet/wrap/unwrap of Size","src/pb3/typ/size.rs")],None,["Size wrap/unwrap, sizeof_sizet"])

p("C08","Every PB3 field unwraps to what was wrapped and occupies its announced size",
"For every field type and value, wrapping writes exactly the announced number of trits, advances the buffer by it, touches nothing else, and unwrapping from an equal sponge state returns the same value, advances by the same amount and ends in the same sponge state as the writer. This holds for absorbed and masked fields, external fields, tags, joins and repeated/one-of headers.",
["inputs","histories"],"all field types, values, payload lengths and prior sponge states",
"Tests round-trip a small set of values from a fresh sponge.",
["src/pb3/typ/trint.rs","src/pb3/typ/trytes.rs","src/pb3/typ/size.rs","src/pb3/typ/repeated.rs","src/pb3/typ/oneof.rs","src/pb3/typ/msspk.rs","src/pb3/typ/ntrupk.rs","src/pb3/cmd/absorb.rs","src/pb3/cmd/mask.rs","src/pb3/cmd/mac.rs","src/pb3/cmd/join.rs"],
[("WrapAbsorb/WrapMask wrap3/wrapn/unwrap3/unwrapn","src/pb3/cmd"),("Absorb/Mask impls and sizeof_*","src/pb3/typ"),("wrap_mac/unwrap_mac, wrap_join/unwrap_join","src/pb3/cmd")],None,["pb3 wrap/unwrap API"])

p("C09","Malformed or truncated input is reported as an error, never a crash",
"Unwrapping any field or message from an arbitrary trit buffer of any length terminates with a value or an error: it does not panic, read outside the buffer, advance past its end, or allocate storage for more trits than the buffer can hold. Whatever the outcome, the unread part of the buffer is a suffix of the input.",
["inputs"],"all trit buffers of all lengths given to every unwrap function",
"Tests only unwrap what was just wrapped.",
["src/pb3/typ","src/pb3/cmd","src/app/channel/msg","src/app/core/msg/header.rs"],
[("guard(n <= b.size(), Err::Eof)","src/pb3/cmd, src/pb3/typ"),("keyload::unwrap skip arithmetic","src/app/channel/msg/keyload.rs"),("mss::recover size checks","src/mss/mss.rs")],None,["unwrap functions"])

p("C10","Channel messages round-trip and fill exactly their announced size",
"For every message type (header, announce, change key, keyload, signed packet, tagged packet, subscribe, unsubscribe) and every payload, key set and prior state, wrapping fills exactly the announced size and a legitimate recipient starting from an equal state recovers the same contents, consumes the whole message and ends in the same sponge state as the sender.",
["inputs","configurations"],"all payloads, key sets, prior sponge states and message types",
"Each message type has one test with one payload and fresh states.",
["src/app/channel/msg/announce.rs","src/app/channel/msg/change_key.rs","src/app/channel/msg/keyload.rs","src/app/channel/msg/signed_packet.rs","src/app/channel/msg/tagged_packet.rs","src/app/channel/msg/subscribe.rs","src/app/channel/msg/unsubscribe.rs","src/app/core/msg/header.rs"],
[("wrap/unwrap/sizeof of each message","src/app")],None,["wrap/unwrap/sizeof"],"constructors of MsgId and AppInst are crate-private; a guarded hook is needed for outside harnesses")

p("C11","Messages are accepted only if tag or signature matches the transcript",
"Unwrapping a tagged field or message succeeds only if the tag in the buffer equals the one squeezed from the sponge after absorbing everything read before it, with a tag produced under any other sponge state or altered in any trit rejected. Signed messages are accepted only if the signature recovers exactly the expected (or announced) public key for the hash squeezed from the transcript, and a masked key is released only when the inner tag matches.",
["inputs","fault_sequences"],"all received buffers, all single or multiple trit alterations, all sponge states",
"Tests check one altered key; they cannot try every altered position or content.",
["src/pb3/cmd/mac.rs","src/pb3/cmd/mssig.rs","src/pb3/cmd/ntrukem.rs","src/ntru.rs","src/app/channel/msg"],
[("unwrap_mac","src/pb3/cmd/mac.rs"),("unwrap_mssig_verify/squeeze_unwrap_mssig_verify","src/pb3/cmd/mssig.rs"),("decr_with_s","src/ntru.rs")],None,["unwrap results"])

p("C12","A one-time signature recovers the signer's public key, and only by honest chains",
"For every private key and every message hash, recovering from the signature made for that hash yields exactly the signer's public key. The signed chain positions are a function of the hash such that the positions for two different hashes are never ordered component-wise, so no signature can be turned into one for another hash by only moving chains forward.",
["inputs"],"all private keys and all 234-trit hashes, all pairs of different hashes",
"Tests sign one hash with one key; 3^234 hashes and all checksum carries are out of reach.",
["src/wots.rs"],[("sign/calc_pk/recover and checksum","src/wots.rs"),("rehash_data","src/wots.rs")],None,["PrivateKey::sign, PublicKey::verify, recover"])

p("C13","Merkle signatures verify for every key index and stop when keys run out",
"For every generator seed, tree height and key index, the signature made with the current one-time key recovers and verifies under the tree's public key, has the announced size and carries the height and key number it was made with. Verification is false for any signature of another size, an unparsable or out-of-range index, or one that recovers a different key; advancing moves to the next index exactly once per key, and an exhausted key reports that none are left and refuses to sign.",
["inputs","histories"],"all seeds, heights up to the limit, all indices, all hashes and all candidate signatures",
"Tests try small heights and one message per key.",
["src/mss/mss.rs"],[("PrivateKeyT::sign/next/skn_left","src/mss/mss.rs"),("recover/verify/parse_skn/encode_skn/fold_apath","src/mss/mss.rs")],None,["mss public API"])

p("C14","Every authentication path leads from its leaf to the unchanging root",
"For every tree height and leaf sequence, both tree implementations compute the root of the complete binary hash tree over the leaves, and at every leaf index reached by advancing, the current authentication path has one node per level and folds that leaf to the root. Advancing visits the indices 0, 1, ..., 2^height - 1 in order, each exactly once, and then reports exhaustion.",
["inputs","histories"],"all heights, all leaf values and merge functions, all positions in the traversal",
"Tests run heights up to a small bound; the scheduling argument of the space-efficient traversal is an invariant over all heights.",
["src/mss/mt.rs","src/mss/mtcomplete.rs","src/mss/mttraversal.rs"],
[("MT::gen/next/apath","src/mss/mtcomplete.rs"),("gen_mt/refresh/build_stacks/Stack","src/mss/mttraversal.rs"),("APath::fold","src/mss/mt.rs")],
[dict(name="stacks",meaning="partially built sub-trees that become the next path nodes",where="src/mss/mttraversal.rs")],["MT API"])

p("C15","Stored Merkle trees load back to an equal tree and bad dumps are refused",
"Storing a tree at any point of its traversal and loading the result gives a tree equal to the original, which continues identically. Loading is refused exactly when the index is beyond the number of leaves or the number of nodes does not fit the height and index.",
["inputs","histories"],"all heights, indices and node vectors",
"Tests store and load only small trees and few corrupted dumps.",
["src/mss/mtcomplete.rs","src/mss/mttraversal.rs"],[("store/load","src/mss/mtcomplete.rs, src/mss/mttraversal.rs")],None,["store/load"])

p("C16","Polynomial arithmetic is exact arithmetic modulo (x^1024+1, 12289)",
"Coefficient and polynomial addition, subtraction, multiplication, powers and inverses are the exact operations of the field with 12289 elements and of the ring of polynomials modulo x^1024 + 1, for every reduced operand, with every result reduced and no machine overflow. The forward and inverse transforms are mutually inverse, and pointwise multiplication between them is multiplication in the ring; conversion from and to trits is exact.",
["inputs"],"all coefficient pairs, all polynomials",
"Tests use a few polynomials; the field has 12289 squared operand pairs and the ring 12289^1024 elements.",
["src/poly.rs"],[("coeff_*","src/poly.rs"),("Poly::ntt/intt/conv","src/poly.rs"),("tables","src/poly.rs")],None,["Poly operations"])

p("C17","NTRU decapsulation returns the encapsulated key and rejects invalid input",
"For every generated key pair, key and nonce, decapsulating the encapsulation returns the same key and leaves both sponges in the same state (unless a coefficient of the decryption polynomial takes one of the two extreme values +-6145, which rounds wrongly). Decapsulation reports failure unless the recomputed tag equals the received one, public keys are accepted exactly when their encoding is a valid reduced and invertible polynomial, and encoding of public keys is inverse to decoding.",
["inputs"],"all key pairs, keys, nonces, ciphertexts and candidate public keys",
"Tests encapsulate a few keys under a few key pairs.",
["src/ntru.rs","src/poly.rs"],[("encr_with_s/decr_with_s/gen","src/ntru.rs"),("PublicKey validation/to_trits/from_trits","src/ntru.rs, src/poly.rs")],None,["ntru API"])

p("C18","The Troika permutation is the specified bijection on valid states",
"Column, shift, substitution and addition steps act on the bit-sliced state exactly as the corresponding ternary operations on 729 trits: bit-sliced addition, multiplication, rotation, reading and writing agree with arithmetic modulo 3 on every lane and keep the representation valid. The permutation maps distinct states to distinct states, is deterministic, and agrees with an independent trit-wise description of its rounds.",
["inputs"],"all 3^729 states and all lanes",
"Tests check a few known answers; a bit-level change that affects only rare carries or one lane can pass them.",
["src/troika.rs"],[("T27 ops","src/troika.rs"),("Troika::permutation steps","src/troika.rs")],
[dict(name="bit planes p,n",meaning="one lane of 27 trits as two 27-bit masks, never both set",where="src/troika.rs T27")],["Troika::permutation/set1/get1"])

p("C19","The Troika hash sponge is insensitive to chunking and restarts cleanly",
"Absorbing data in any sequence of calls and squeezing output in any sequence of calls gives the same digest as single calls of the concatenated data, for all lengths including multiples of the rate. After a reset the sponge behaves as a new one, and messages of different length are padded differently so that no message's padded form equals another's.",
["inputs","histories"],"all messages, lengths, splits and reset points",
"Known-answer tests hash a few messages with one call each.",
["src/troika.rs"],[("TroikaSponge absorb/finalize/squeeze/reset","src/troika.rs")],None,["TroikaSponge API"])

p("C20","Generated randomness is a function of the key and the concatenated nonces",
"The generator's output depends only on its key, the concatenation of the nonces and the requested length: how nonces or outputs are split into slices does not matter, a shorter request is a prefix of a longer one, the generator itself is not changed by use, and outputs overwrite only the requested buffers. Hashing one or several pieces of data obeys the same rule.",
["inputs","histories"],"all keys, nonce lists, splits and output lengths",
"Tests check one size and one nonce per call.",
["src/prng.rs","src/spongos.rs"],[("PRNG::gen/gens/genss","src/prng.rs"),("hash_data/hash_datas","src/spongos.rs")],None,["PRNG API, hash_data(s)"])
for q in P: assert len(q["title"])<=80,(q["id"],len(q["title"])); assert q["statement"].count(". ")<=2,(q["id"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(q)+"\n" for q in P))
