import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs,state=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,**({"state":state} if state else {}),mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None)))
C,O,V,PO,S,G1,G2='src/common.rs','src/oprf.rs','src/voprf.rs','src/poprf.rs','src/serialization.rs','src/group/ristretto.rs','src/group/elliptic_curve.rs'
p("C01","Oblivious evaluation equals direct evaluation",
 "In every mode (OPRF, VOPRF, POPRF), for every key, input, public info and blinding randomness, the output the client obtains from blind, blind evaluation and finalize equals the output the server computes directly with evaluate. This holds for single and batched evaluations of any size, with and without the allocating batch API, and an absent info behaves in every step like an empty one. The output depends only on key, mode, input and info, never on the blinding randomness.",
 ["inputs"],"every key, blinding factor, hash-to-group value, info scalar and proof nonce (exhaustively in small groups), every input and info length, every batch size, all four shipped suites",
 "the tests compare a handful of fixed CFRG vectors and one random run per suite; None vs empty info, other lengths and batch sizes are never compared with evaluate",
 [O,V,PO,C],[("blinding and unblinding cancel",O+":finalize_after_unblind, "+V+":verifiable_unblind, "+PO+":poprf_unblind"),("tweak inversion",PO+":compute_tweak")],["finalize/batch_finalize output vs evaluate output"])
p("C02","Messages, proofs and outputs are byte-exact RFC 9497",
 "Every byte string the crate produces - blinded elements, evaluation elements, proofs, public keys and outputs - is exactly what RFC 9497 prescribes for the same suite, mode, key, input, info, blinding factor and proof nonce, for single evaluations and for every batch size. A peer that implements the RFC independently therefore interoperates in every mode.",
 ["inputs"],"all values of small groups, every input/info length and batch size up to the bounds, boundary and generic values of the shipped suites",
 "the CFRG vectors fix two inputs, one info, batch sizes 1 and 2 and one key per suite: length fields, counters, group arithmetic and framing for other sizes are not exercised",
 [C,O,V,PO,S,G1,G2],[("domain separation tags and length framing",C+":Dst, generate_proof, compute_composites, server_evaluate_hash_input")],["serialized messages and outputs"])
p("C03","Key derivation is RFC 9497 DeriveKeyPair and yields a valid key pair",
 "Deriving a server from a seed gives exactly the RFC 9497 DeriveKeyPair result for every seed, key info and mode: zero candidates are skipped by incrementing the counter, and only after all 256 candidates were zero does it fail with the protocol error. Every server, however constructed (seed, random, raw key bytes, restored from the serialization of a server), holds a nonzero secret key and the matching public key, and a random server uses all the key-size randomness it draws.",
 ["inputs","fault_sequences"],"every seed length, info length and content up to the bounds, every number 0..256 of leading zero candidates, every key in small groups",
 "a zero hash-to-scalar output has probability 2^-252, so no test reaches the retry loop; the vectors fix one seed and one info",
 [C,O,V,PO],[("counter loop",C+":derive_key_internal"),("public key",C+":derive_keypair, new_with_key")],["serialized server state, get_public_key, derive_key"])
p("C04","Honest proofs always verify",
 "For every key, batch size from 0 to 65535, input set (including duplicates), info and nonce, the proof produced by an honest VOPRF or POPRF server for its own public key is accepted by the client, through the single, the allocating batch and the non-allocating batch API alike. A valid proof never makes the client fail.",
 ["inputs","histories"],"all keys, elements, weights and nonces in small groups for batches up to 2; every batch size up to the bound plus edges to 65535; all ways to construct the server",
 "tests check a batch of 10 and single proofs with random values; sizes above 255, zero weights and boundary keys are not reached",
 [C,V,PO],[("proof generation and verification",C+":generate_proof, verify_proof, compute_composites")],["finalize/batch_finalize verdict"])
p("C05","A tampered transcript never yields an output",
 "A verifying client returns an output only if the proof is a valid RFC 9497 proof for exactly the blinded elements it sent, in order, the received evaluation elements, in order, the given public key, mode and info. Any other combination - altered, swapped, replayed from another transcript, wrong key, wrong info, wrong mode, any position of any batch - makes the whole call fail with the proof verification error and no output.",
 ["inputs","histories"],"all (blinded, evaluated, c, s, public key, info) tuples in small groups; all single tamperings of every batch position up to the bound and all pairs of a tampering alphabet; bit flips of shipped-suite messages",
 "the tests try one wrong public key; positions, weights, compensating changes and replays are not sampled",
 [C,V,PO],[("challenge recomputation and comparison",C+":verify_proof"),("per-element weights bind position",C+":compute_composites")],["finalize/batch_finalize verdict"])
p("C06","No adversary on the network makes a client accept a wrong output",
 "Whatever a network attacker does with the messages it has seen - reordering, replaying, mixing sessions and batches, evaluating under its own key, querying the honest server, combining group elements - a client that verifies against the honest server's public key either fails or outputs exactly the function value under the honest key for its own input and info.",
 ["histories","schedules"],"all action sequences of a bounded Dolev-Yao attacker over two clients, an honest and a rogue server up to the depth bound",
 "unit tests run the protocol only in the honest order",
 [V,PO,C],[("proof verification binds the session",V+":verifiable_unblind, "+PO+":poprf_unblind")],["finalize/batch_finalize output"],
 [dict(name="network knowledge",meaning="elements and proofs the attacker holds",where="model"),dict(name="client state",meaning="blind and blinded element of each session",where="VoprfClient/PoprfClient")])
p("C07","A batch means the same as its items, in order",
 "Batch evaluation returns exactly one evaluation element per blinded element, in the same order and equal to the one a single evaluation gives; batch finalize returns exactly one result per input, in order. The result does not depend on the kind of collection or iterator the batch is passed in, on draining results partially, stepwise or interleaved with another batch, nor on using the allocating or the prepare/finish API, and a permuted batch gives permuted results.",
 ["inputs","histories"],"every batch size up to the bound, all permutations of small batches, collection kinds, draining patterns and interleavings",
 "tests use one Vec-based batch of 10 and never compare items, orders or iterators",
 [V,PO],[("lazy iterators over zipped collections",V+":batch_blind_evaluate_prepare, batch_finalize; "+PO+" same")],["messages and outputs of the batch API"])
p("C08","Mismatched or oversized batches are refused with the batch error",
 "If the numbers of items handed to a batch operation differ, or there are more than 65535, the operation returns the batch error: it never panics, truncates, drops items or pairs wrong ones. Up to 65535 items are processed completely. Results that fail for one item's input do not affect the other items.",
 ["inputs"],"all count combinations up to the bound for prepare/finish and finalize, and sizes 65535, 65536, 65537, 131071, 131072 in both modes and both APIs",
 "no existing test passes mismatched or large batches",
 [C,V,PO],[("length comparison and u16 conversion",C+":compute_composites"),("input count check",V+":batch_finalize, "+PO+":finalize_after_unblind")],["Result of the batch API"])
p("C09","Length limits: 65535 bytes accepted, more refused with the documented error",
 "Inputs (including empty ones), public infos and key infos of every length up to 65535 bytes work in every operation and every seed length works; every longer input, info or key info is refused by every operation that takes it with the documented error (Input, Info, DeriveKeyPair), never a panic, truncation or success. In a batch finalize an oversized input fails only its own item.",
 ["inputs"],"every length 0..=65535 per operation (toy suites) and edge lengths around each multiple of 65536 for all suites",
 "tests use inputs of a few bytes; no length limit is tested",
 [C,O,V,PO,S],[("two-byte length encoding",S+":i2osp_2"),("error mapping",C+":server_evaluate_hash_input, derive_key_internal, "+PO+":compute_tweak")],["Result of every operation"])
p("C10","State and messages survive persistence unchanged",
 "Every client, server, message, proof, prepared element and prepared tweak can be replaced at any point of the protocol by its clone or by what is restored from its byte serialization or from its serde serialization (self-describing or binary), and the rest of the run produces identical bytes. Serialization is deterministic, has exactly the declared length, and serializing a restored value gives the same bytes again.",
 ["histories","configurations"],"every subset of persisted objects in every form at every protocol step, all modes and suites, all key/blind/element values of small groups",
 "tests never resume a protocol from serialized state",
 [S,C,O,V,PO],[("fixed layout serialization",S),("serde with Group encoding",S+":serde::Element, serde::Scalar")],["bytes of all later messages and the output"])
p("C11","Decoding accepts exactly the canonical encodings of valid values",
 "Deserialization - from bytes, from raw keys or through serde - accepts an element or scalar only in its unique canonical encoding of the exact fixed length, on the curve, not the identity and not zero; everything else (non-canonical, out of range, off-curve, alternative point formats, truncated) is refused with the deserialization error and never a panic. What is accepted re-encodes to the same bytes; a multi-field object is decoded from exactly the leading bytes of its declared length.",
 ["inputs"],"all encodings of small groups, all single-byte values of each byte and all bit flips of valid encodings, boundary integers around the field and group order, all truncations, all tags, for all suites and object kinds",
 "the proptests only check that random bytes do not crash; random bytes never hit boundary encodings",
 [S,G1,G2],[("strict decoding",G1+":deserialize_elem, deserialize_scalar; "+G2+" same")],["Result and value of deserialize/new_with_key/serde"])
p("C12","Blinded messages and proofs reveal nothing about input",
 "For every input, as the blinding factor ranges over all nonzero scalars, the blinded element ranges over all non-identity elements exactly once, so the message a client sends has the same distribution for every input and never is the identity. Two runs with different randomness send different messages, and the server-visible transcript contains nothing else about the input.",
 ["inputs"],"all pairs of input hash value and blinding factor in small groups, all modes; distinctness over independent streams on the shipped suites",
 "a distribution over all blinding factors cannot be sampled by unit tests",
 [C,O,V,PO],[("multiplicative blinding with a random nonzero scalar",C+":deterministic_blind_unchecked, blind")],["serialized BlindedElement"])
p("C13","Randomness is fresh, unbiased and taken only from the caller's RNG",
 "Blinding factors, proof nonces and random keys are a function of the caller's RNG output alone: identical RNG output gives identical results and every drawn value matters. Each blind and each proof draws its own randomness, uses it for exactly that purpose, is never zero and ranges over all nonzero scalars - no nonce or blind is constant, reused, truncated or derived from other data - so two proofs or blinds made with different draws never share it.",
 ["inputs","histories"],"all RNG outputs of small groups, including rejected draws; scripted boundary outputs and per-byte sensitivity on the shipped suites; sequences of operations on one RNG",
 "tests use OsRng or a fixed mock: neither bias, reuse nor ignored bytes are visible",
 [C,O,V,PO,G1,G2],[("random_scalar per blind/proof",G1+":random_scalar, "+G2+":random_scalar, "+C+":generate_proof")],["blind in client state, nonce recovered from the proof with the key"])
p("C14","Hash inputs are injective and domain separated",
 "Every hash-to-group, hash-to-scalar and proof seed the protocol computes is bound to suite identifier, mode, purpose and the complete, length-framed list of its arguments (input, info, key seed, public key, elements and their position in the batch), and the output hash to input, info and evaluated element: two operations that differ in any of these never hash the same domain and data. As in RFC 9497 the output hash carries suite and mode only through the element, and a key seed, whose length a suite fixes, is not length-framed.",
 ["inputs","configurations"],"all pairs of hash queries made in a bounded universe of operations over several suites, modes, ambiguous input/info splits, batch positions",
 "tests cannot observe the hash queries, and collisions by ambiguous framing need adversarial argument pairs",
 [C],[("Dst and length framing",C+":Dst, derive_key_internal, compute_composites; "+PO+":compute_tweak")],["queries at the Group/Hash interface of a recording suite"])
p("C15","POPRF binds the public info",
 "Client and server succeed together only if both use the same info (an absent info counts as empty): any other info makes the proof fail. If key and info combine to a non-invertible tweak, every server operation and, for the corresponding public key, every client operation fails with the protocol error and nothing is revealed or accepted. Oversized info fails with the info error.",
 ["inputs"],"all key and info scalar combinations in small groups, all pairs of a set of infos with prefixes, extensions and equal hashes; the inverse-error key on the shipped suites",
 "the inverse error has negligible probability in tests; mismatching infos are tried once",
 [PO],[("tweak and tweaked key checks",PO+":compute_tweak, compute_tweaked_key")],["Result of blind_evaluate, evaluate, prepare, finalize"])
p("C16","Degenerate values are refused, never processed",
 "An input whose hash is the group identity is refused by blind and evaluate in every mode with the input error. The identity never leaves a blind, evaluation or key generation, no zero scalar is ever used as key, blind or nonce, and an identity public key, element or zero scalar is not accepted from outside.",
 ["inputs","fault_sequences"],"every hash value including zero in small groups for every operation and mode; scripted zero and order-multiple RNG outputs; identity and zero encodings for every decoder",
 "hashing to the identity has negligible probability and cannot be provoked with a real hash",
 [C,O,V,PO,G1,G2],[("identity checks",C+":deterministic_blind_unchecked, "+O+":evaluate")],["Result of blind/evaluate/decoders"])
p("C17","Operations are independent of history and do not alter state",
 "Any sequence of operations on shared servers, clients, messages and proofs gives the same results as each operation on its own: operations neither change the objects they use nor leave state behind, whatever came before, including failed calls. Clients and servers can be used any number of times.",
 ["histories"],"all operation sequences up to the depth bound over an alphabet of succeeding and failing operations, plus long repetitions",
 "tests run one operation sequence",
 [O,V,PO,C],[("all operations take &self",O+", "+V+", "+PO)],["results and serialized objects after every step"])
p("C18","Dropping a value erases its secrets",
 "When a client, server, message, proof, prepared element or prepared tweak is dropped, no memory of the value keeps data that depends on its secret: afterwards its storage is the same whatever the value was.",
 ["inputs"],"all eleven types, all suites and modes, values obtained by construction, cloning and every kind of restoration",
 "the existing zeroize tests run drop in place and then check the struct for a few types with the stock suites only",
 [C,O,V,PO],[("ZeroizeOnDrop derives",C+", "+O+", "+V+", "+PO)],["raw storage after drop_in_place"])
p("C19","Hostile data never panics or hangs any operation",
 "No bytes, however malformed, and no combination of well-formed but unrelated messages, proofs, keys, infos and batch shapes make any deserializer or protocol operation panic, loop or exhaust memory: every call returns a value or an error.",
 ["inputs","histories"],"all lengths with adversarial contents for every decoder and serde format, and all operations on every combination of decodable or unchecked degenerate values",
 "the proptests cover random bytes into deserialize only",
 [S,C,O,V,PO,G1,G2],[("checked slicing and error returns",S)],["process: no panic"])
p("C20","Shipped groups implement their specification",
 "For each shipped suite the group operations behave as specified: hash-to-group and hash-to-scalar equal RFC 9380/9497 for every split of message and tag into slices and every tag length, the base element generates a prime-order group, encodings have the declared fixed lengths and round trip, inversion is exact, and identity and zero tests are exact. Suite identifiers and sizes are those of the RFC.",
 ["inputs"],"all message splits and lengths up to the bound, tag lengths across the 255-byte limit, boundary scalars and their sums and products",
 "the group tests check identity and zero decoding only",
 [G1,G2,'src/ciphersuite.rs'],[("Group implementations",G1+", "+G2)],["Group trait results"])
p("C21","Results do not depend on enabled features",
 "Whichever optional features are enabled, the same operations on the same data and randomness give identical bytes and errors, and data serialized by one build is restored by another.",
 ["configurations"],"the lattice of feature sets that compile (alloc, danger, serde, std, ristretto255, ristretto255-ciphersuite), one probe run per set",
 "CI only checks that the feature sets build and that tests pass in each, not that they agree",
 ['Cargo.toml','src/lib.rs'],[("cfg(feature) gates","src/*.rs")],["transcript digest of a probe program"])
p("C22","The danger API agrees with the safe API",
 "A client built with an explicit blinding factor behaves exactly like the client that drew that factor from its RNG, the exposed values equal the serialized ones, wrapping an exposed value gives an equal object, and the exposed key derivation equals the key of the server derived from the same seed, info and mode.",
 ["inputs","configurations"],"every blind, hash value and key in small groups and boundary values of the shipped suites, all modes",
 "the danger functions are used by the vector tests but never compared with the safe API",
 [C,O,V,PO],[("deterministic_blind_unchecked shared inner function",O+", "+V+", "+PO)],["bytes of states, messages, keys"])
p("C23","Values compare, hash and copy by content",
 "Two objects are equal exactly when their contents are equal; comparison, ordering and hashing agree with equality, ordering is total, and a clone equals its original and stays unaffected by dropping it. No field is ignored.",
 ["inputs"],"all pairs of objects of every type over all field values of small groups, and generic pairs on the shipped suites",
 "tests only compare single fields",
 [C,O,V,PO],[("derive_where implementations",C+", "+O+", "+V+", "+PO)],["==, cmp, hash, clone"])
p("N01","Secret-dependent operations run in constant time",
 "The running time of operations on secret keys, blinding factors and nonces does not depend on their values.",
 ["inputs"],"all secret values","timing is not observable by functional tests",[C,G1,G2],[("constant-time comparison",C+":verify_proof")],["timing"])
p("N02","Outputs are pseudorandom and proofs are sound against computation",
 "Without the key, outputs are indistinguishable from random, and no efficient adversary forges a proof except with negligible probability, in the random oracle model.",
 ["inputs"],"all efficient adversaries","a computational hardness statement about the groups, not about executions",[C],[("RFC 9497 construction",C)],["n/a"])
for x in P: assert len(x['title'])<=80,x['title']
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
