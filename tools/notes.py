import json
T="stateless exhaustive model checking of the real code: every choice sequence (values, sizes, histories, RNG and oracle answers) enumerated within bounds"
LOCK=", in lockstep with an executable RFC 9497 model"
def n(b,extra=""):
    return "Exhaustive within the bounds: "+b+" Trusts the arithmetic of the curve crates and the harness's reference model; beyond the bounds it rests on the code treating all values, lengths and sizes alike. "+extra
N={
"C01":(T+LOCK,n("all keys, blinds, hash values, info scalars of groups of order 3..13; every length 0..600 and edges to 65535; batch sizes 0..140 and edges; on the shipped suites a grid, every length to the bound, special contents, keys/blinds/nonces with one or all but one bit.")),
"C02":(T+LOCK,n("as C01, every message, proof and output compared byte for byte with an independent RFC 9497 implementation checked against the published vectors.")),
"C03":(T+", with enumerated fault positions (zero hash outputs)"+LOCK,n("0..256 leading zero candidates, every seed and key-info length to 65535, all keys of small groups, every byte of key randomness.")),
"C04":(T,n("all keys, elements, weights, nonces of groups of order 3..7 for batches 0..2; every batch size up to the bound and edges to 65535; shipped suites x server constructors.")),
"C05":(T+" with a reference verifier as oracle",n("all client views in groups of order 3..11 for batches 1 and 2; all tampering sequences of length 2; every batch position; byte flips on shipped suites; every evaluation with every proof of servers in both modes under several infos and related keys; all one- and two-step alterations of honest answers.","Soundness in the large groups is up to oracle collisions of probability 2^-61.")),
"C06":("explicit-state breadth-first search of a Dolev-Yao network adversary whose every transition runs the real servers and whose invariant runs the real clients",n("all adversary histories of 5 (VOPRF) / 4 (POPRF) actions over two clients, an honest and a rogue server, with element algebra and proof splicing; one or two nonces per request. Further: every evaluation with every proof of servers in both modes under six infos and honest, rogue and related keys; all one- and two-step alterations of honest answers; every position of batches up to 65535; every byte on the shipped suites.","The adversary's algebra is the listed operations, not all computations.")),
"C07":(T,n("sizes, all collection kinds, ways of draining, all permutations up to 5 items, all interleavings of two lazy batches.")),
"C08":(T,n("all count combinations up to the bound; sizes around 65535 and multiples of 65536 in both modes and APIs; every subset of failing items.")),
"C09":(T,n("every length 0..65535 of every length-limited argument on a toy suite; edge lengths around each multiple of 65536 on all suites.")),
"C10":(T+" over persistence points (each object replaced by clone, bytes, bincode or JSON restore at every step)",n("full product of forms over all objects of a run, all suites and modes.")),
"C11":(T+" over an adversarial encoding alphabet",n("per object kind and component: all bit flips, tags, lengths, boundary integers around 0, p and n, alternative point formats, in bytes and serde documents.","Validity of a point is decided by the curve crate plus canonical re-encoding.")),
"C12":(T+"; the reachable message sets of all inputs are compared as distributions",n("all hash values x all blinds of groups of order 3..13; every input length to the bound; stream pairs, special contents and boundary blinds on shipped suites.")),
"C13":(T+" over RNG outputs",n("all nonces, blinds, keys of small groups, rejected draws, all sequences of drawing operations, every byte of every draw on shipped suites.")),
"C14":(T+" with all hash queries recorded; the relation between meanings and queries is checked to be one to one",n("all pairs of operations over suites, modes and ambiguous argument splits; batches up to the bound.")),
"C15":(T,n("all key x server info x client info scalars of groups of order 3..13; all ordered pairs of an info pool; degenerate keys on every suite.")),
"C16":(T+" with enumerated degenerate oracle and RNG answers",n("every hash value including the identity in groups of order 3..13; RNG outputs that reduce to zero; boundary key x blind pairs on shipped suites; identity and zero encodings in every component of every decoder.")),
"C17":("exhaustive exploration of operation histories on shared objects, each result compared with the history-free reference",n("all sequences up to the depth over succeeding and failing operations; more than 65536 repetitions of each; pairs split over two threads.","The crate has no interior mutability, so thread interleavings inside an operation do not exist at source level.")),
"C18":(T+" with raw-memory comparison after drop",n("all kinds, suites, forms; pairs of values differing in one component.","Observes the memory of the value, not compiler copies on the stack.")),
"C19":(T+" under a panic, time and memory monitor",n("every length up to the encoding + 8, adversarial contents, boundary components, odd serde documents, full products of object pools, batch shapes.")),
"C20":(T+" against an independent RFC 9380 implementation",n("all three-way splits, tag lengths, message lengths up to the bound; all pairs of boundary, single-bit and generic scalars.","Field arithmetic of the curve crates is trusted.")),
"C21":("exhaustive exploration of the feature lattice: one probe run per feature set, all pairs of runs compared and cross-restored",n("all 36 effectively different feature sets on the host target.")),
"C22":(T,n("every blind, hash value, key of small groups; boundary blinds of shipped suites against a client whose RNG yields them; every length of input, info, seed, key info to the bound; 0..256 zero candidates.")),
"C23":(T,n("all pairs (and triples for transitivity) of values of every kind in small groups; all pairs of boundary scalars and their multiples, and all one-bit neighbours, on shipped suites.")),
}
json.dump(N,open('/verif/tools/notes.json','w'),indent=1)
