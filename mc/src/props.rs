//! Property -> kernels.
use crate::engine::Kernel;
use crate::*;

pub struct Prop {
    pub id: &'static str,
    pub kernels: Vec<Kernel>,
    pub assumptions: Vec<&'static str>,
}
macro_rules! k {
    ($n:expr, $f:expr, $w:expr) => {
        Kernel { name: $n, f: $f, what: $w }
    };
}
const TOYA: &str = "toy groups implement the crate's public Group/CipherSuite traits, so the generic protocol code under check is the shipped code; their hash functions are random-looking oracles";

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            assumptions: vec![TOYA],
            kernels: vec![
                k!("obl_toy", k_core::toy_space::<false>, "groups of order 3..13: every key, blind, hash-to-group value, info scalar, nonce"),
                k!("obl_len", k_core::lengths::<false>, "every input/info length up to the bound plus edge lengths, 2 contents"),
                k!("obl_real", k_core::real_grid::<false>, "4 shipped suites x modes x keys x blinds x inputs x infos"),
                k!("obl_contents", k_core::real_contents::<false>, "shipped suites: every one-byte input and info, two-byte ones over 17 special bytes, prefixes, suffixes, text"),
                k!("obl_lens", k_core::real_lengths::<false>, "shipped suites: every input and info length up to the bound and edges"),
                k!("obl_scalars", k_core::real_scalars::<false>, "shipped suites: keys, blinds and nonces with one or all but one bit, small, inverses, negatives"),
                k!("obl_batch", k_core::batch_sizes::<false>, "every batch size up to the bound plus edges, alloc and no-alloc"),
                k!("obl_batch_real", k_core::batch_real::<false>, "shipped suites, batch sizes"),
            ],
        },
        Prop {
            id: "C02",
            assumptions: vec![TOYA],
            kernels: vec![
                k!("rfc_vectors", k_core::vectors, "the 32 published RFC 9497 vectors of the shipped suites, against the reference model and the implementation"),
                k!("rfc_toy", k_core::toy_space::<true>, "as obl_toy, every message compared with the RFC model"),
                k!("rfc_len", k_core::lengths::<true>, "as obl_len, every message compared with the RFC model"),
                k!("rfc_real", k_core::real_grid::<true>, "as obl_real, every message compared with the RFC model"),
                k!("rfc_contents", k_core::real_contents::<true>, "shipped suites: every one-byte input and info, two-byte ones over 17 special bytes, prefixes, suffixes, text, in lockstep"),
                k!("rfc_lens", k_core::real_lengths::<true>, "shipped suites: every input and info length up to the bound and edges, in lockstep"),
                k!("rfc_scalars", k_core::real_scalars::<true>, "shipped suites: keys, blinds and nonces with one or all but one bit, small, inverses, negatives, in lockstep"),
                k!("rfc_batch", k_core::batch_sizes::<true>, "as obl_batch, every message compared with the RFC model"),
                k!("rfc_related", k_batch::related::<true>, "batches of related elements: every sequence over P, -P, 2P, Q, -Q, the base element and its negation"),
                k!("rfc_batch_real", k_core::batch_real::<true>, "as obl_batch_real, every message compared with the RFC model"),
            ],
        },
        Prop {
            id: "C04",
            assumptions: vec![TOYA],
            kernels: vec![
                k!("cmp_toy", k_core::complete_toy, "groups of order 3..7: every key, blinded elements, weights, nonce for batches of 0..2"),
                k!("cmp_sizes", k_core::complete_sizes, "every batch size up to the bound plus edges up to 65535"),
                k!("cmp_related", k_batch::related::<false>, "batches of related elements: every sequence over P, -P, 2P, Q, -Q, the base element and its negation"),
                k!("cmp_scalars", k_core::real_scalars::<false>, "shipped suites: keys, blinds and nonces with one or all but one bit, small, inverses, negatives"),
                k!("cmp_real", k_core::complete_real, "shipped suites x server constructors x batch size x RNG answers"),
            ],
        },
        Prop {
            id: "C05",
            assumptions: vec![TOYA, "two distinct oracle queries collide in the order-2^61-1 groups with probability 2^-61"],
            kernels: vec![
                k!("snd_toy", k_sound::sound_toy, "groups of order 3..11: every blinded, evaluated, c, s, pk, info scalar; batches of 1 and 2"),
                k!("snd_tamper", k_sound::sound_tamper, "honest transcript followed by every tampering sequence of length <= 2"),
                k!("snd_positions", k_sound::sound_positions, "every position of every batch size: shift, swap, compensated shift"),
                k!("snd_rfc", k_sound::sound_rfc_prover, "RFC-reference proofs for every batch size"),
                k!("snd_bits", k_sound::sound_bitflips, "shipped suites: every byte of every message, several bits"),
                k!("snd_cross", k_net::cross::<true>, "every evaluation with every proof of servers in both modes, under several infos and related keys: accepted exactly as by the RFC verifier"),
                k!("snd_altered", k_net::altered::<true>, "honest answers changed by every sequence of one or two steps (shipped suites: one): accepted exactly as by the RFC verifier"),
                k!("snd_keyed", k_sound::sound_keyed, "proofs altered with knowledge of the key: challenge shifted by every +-2^i, response corrected"),
            ],
        },
        Prop {
            id: "C06",
            assumptions: vec![TOYA, "adversary operations are those listed in DESIGN.md; depth bounded"],
            kernels: vec![
                k!("network", k_sound::network, "breadth-first search over network-adversary histories"),
                k!("net_cross", k_net::cross::<false>, "every evaluation with every proof of servers in both modes, under several infos and related keys"),
                k!("net_altered", k_net::altered::<false>, "honest answers changed by every sequence of one or two steps"),
                k!("net_positions", k_net::positions::<false>, "every position of every batch size: shifted, swapped, replayed, compensated"),
                k!("net_bits", k_net::bits::<false>, "shipped suites: every byte of every answer, several bits"),
            ],
        },
        Prop {
            id: "C03",
            assumptions: vec![TOYA],
            kernels: vec![
                k!("drv_retry", k_keys::derive_retry, "0..=256 leading zero candidates, every following candidate value, seeds, infos, modes"),
                k!("drv_len", k_keys::derive_len, "every seed length / key info length up to 65535 on toy suites, edge lengths on shipped suites"),
                k!("drv_ways", k_keys::key_ways, "every key value of the small groups; restored servers in every format; every byte of the randomness of a random server"),
            ],
        },
        Prop {
            id: "C16",
            assumptions: vec![TOYA],
            kernels: vec![
                k!("idn_toy", k_keys::ident_toy, "every hash-to-group value including the identity, every input operation"),
                k!("idn_rng", k_keys::zero_rng, "RNG outputs that map to zero or to multiples of the order: keys, blinds, nonces"),
                k!("idn_values", k_keys::ident_values, "every pair of boundary keys and blinds: nothing the operations return or keep is the identity or zero"),
                k!("idn_outside", k_keys::ident_outside, "the identity, zero and what is congruent to them in every set of components of every kind, through every decoder"),
            ],
        },
        Prop {
            id: "C22",
            assumptions: vec![TOYA],
            kernels: vec![
                k!("dng_agree", k_keys::danger_agrees, "every blind and hash value of small groups; streams on shipped suites"),
                k!("dng_values", k_keys::danger_values, "blinds with one or all but one bit, small, inverses, negatives; the safe client draws the same"),
                k!("dng_lengths", k_keys::danger_lengths, "every input and info length up to the bound, edges and oversized: states, messages, results and errors of both clients"),
                k!("dng_derive", k_keys::danger_derive, "0..256 zero candidates; every seed and info length up to the bound, edges and oversized: derive_key against new_from_seed"),
                k!("dng_wrap", k_keys::danger_wrap, "every element of small groups, multiples at every bit on the shipped ones: wrap, value, copy, restore, formats"),
            ],
        },
        Prop {
            id: "C07",
            assumptions: vec![TOYA],
            kernels: vec![
                k!("bat_small", k_batch::small, "every size up to the bound x collection kind x API x way of draining x input pattern"),
                k!("bat_sizes", k_batch::sizes, "every batch size up to the bound and edges, item by item"),
                k!("bat_real", k_batch::real, "shipped suites, small sizes, collection kinds"),
                k!("bat_perm", k_batch::permuted, "every permutation of batches up to the bound"),
                k!("bat_related", k_batch::related::<false>, "batches of related elements: every sequence over P, -P, 2P, Q, -Q, the base element and its negation"),
                k!("bat_inter", k_batch::interleaved, "two live batches: every interleaving of their lazy iterators"),
            ],
        },
        Prop {
            id: "C08",
            assumptions: vec![TOYA],
            kernels: vec![
                k!("mis_finish", k_batch::finish_counts, "every pair (blinded, prepared) of counts up to the bound"),
                k!("mis_finalize", k_batch::finalize_counts, "every triple (inputs, clients, evaluations) of counts up to the bound x proofs"),
                k!("mis_huge", k_batch::huge, "sizes around 65535 and multiples of 65536, with proofs valid for the size modulo 65536"),
                k!("mis_items", k_batch::bad_items, "every subset of failing items of small batches"),
            ],
        },
        Prop {
            id: "C09",
            assumptions: vec![TOYA],
            kernels: vec![
                k!("len_sweep", k_batch::sweep, "every length 0..=65535 of input (3 modes), info, key info and seed, every operation"),
                k!("len_real", k_batch::sweep_real, "all suites, grid of edge lengths of input x info"),
                k!("len_over", k_batch::over, "over-long lengths, every operation and role, all suites"),
            ],
        },
        Prop {
            id: "C10",
            assumptions: vec![TOYA],
            kernels: vec![
                k!("per_layout", k_persist::layouts, "every kind, suite and boundary contents: layout, declared length, all formats"),
                k!("per_pairs", k_persist::forms_pairs, "every pair of objects of a run x every pair of forms x suites x modes x APIs"),
                k!("per_product", k_persist::forms_product, "full product of forms over all objects of a run"),
                k!("per_batch", k_persist::forms_batch, "batches of 3: every assignment of forms to items"),
            ],
        },
        Prop {
            id: "C11",
            assumptions: vec![TOYA, "validity of an encoding is decided by the curve crates plus a canonical re-encoding test"],
            kernels: vec![
                k!("dec_bytes", k_persist::strict, "candidate encodings (bit flips, tags, offsets around 0, p, n, lengths, alternative formats) in every component of every kind"),
                k!("dec_serde", k_persist::strict_serde, "the same candidates inside JSON and bincode documents"),
            ],
        },
        Prop {
            id: "C18",
            assumptions: vec![TOYA, "only the memory of the value itself is observed, not copies made by the compiler"],
            kernels: vec![
                k!("wip_pairs", k_persist::wiped, "pairs of values differing in one component, all kinds, suites and forms"),
                k!("wip_run", k_persist::wiped_run, "values produced by protocol runs"),
            ],
        },
        Prop {
            id: "C23",
            assumptions: vec![TOYA],
            kernels: vec![
                k!("val_toy", k_persist::values_toy, "every pair of values of every kind in the small groups; transitivity over every triple"),
                k!("val_real", k_persist::values_real, "boundary values of the shipped suites, all forms"),
                k!("val_near", k_persist::values_near, "shipped suites: every valid encoding one bit (thorough: one byte) away, negatives, doubles, inverses"),
                k!("val_bits", k_persist::values_bits, "shipped suites: every pair of scalars with one or all but one bit, small, inverses, negatives, or of their multiples of the generator, in every component"),
            ],
        },
        Prop {
            id: "C12",
            assumptions: vec![TOYA, "hash-to-group outputs of distinct inputs are independent (random oracle)"],
            kernels: vec![
                k!("hid_toy", k_secret::hide_toy, "groups of order 3..13: every hash value and every blind: message map is a bijection"),
                k!("hid_dist", k_secret::hide_dist, "groups of order 3..13: message distribution over all (pairs of) blinds, compared over all hash values"),
                k!("hid_inputs", k_secret::hide_inputs, "every input length up to the bound x 3 contents: blind and RNG use do not depend on the input"),
                k!("hid_streams", k_secret::hide_streams, "all pairs of RNG streams and of draws of one stream"),
                k!("hid_scalars", k_secret::hide_scalars, "blinds with one or all but one bit, small, inverses, negatives, drawn from the RNG, x 4 inputs: used exactly"),
                k!("hid_contents", k_secret::hide_contents, "every one-byte input, two-byte ones over 17 special bytes, prefixes, suffixes, text: the message is the drawn factor times the hash, in every form"),
            ],
        },
        Prop {
            id: "C13",
            assumptions: vec![TOYA],
            kernels: vec![
                k!("rnd_nonce_toy", k_secret::nonce_toy, "groups of order 3..13: every key, every nonce, rejected draws before it, batch sizes 0..3, APIs"),
                k!("rnd_blind_toy", k_secret::blind_toy, "groups of order 3..13: every pair of blinds, rejected draws"),
                k!("rnd_seq", k_secret::draw_seq, "every sequence of drawing operations up to the depth on one RNG"),
                k!("rnd_sizes", k_secret::nonce_sizes, "every batch size up to the bound x API x key x inputs"),
                k!("rnd_bytes", k_secret::every_byte, "every byte of the randomness of every drawing operation"),
                k!("rnd_shape", k_secret::scalar_shape, "boundary RNG outputs around 0 and the order; every bit of the drawn values"),
            ],
        },
        Prop {
            id: "C14",
            assumptions: vec![TOYA, "distinct oracle queries collide in the order-2^61-1 groups with probability 2^-61"],
            kernels: vec![
                k!("dom_queries", k_bind::queries, "every operation of every pair of (suite, mode) over arguments that are prefixes and framings of each other: every hash query recorded, matched to its meaning, meanings and queries one to one"),
                k!("dom_batch", k_bind::queries_batch, "batches: every position's queries, up to the bound"),
                k!("dom_outputs", k_bind::outputs, "all outputs, derived keys and challenges over suites x modes x keys x inputs x infos: pairwise different"),
            ],
        },
        Prop {
            id: "C15",
            assumptions: vec![TOYA],
            kernels: vec![
                k!("inf_toy", k_bind::info_toy, "groups of order 3..13: every key x server info scalar x client info scalar, batch 0..2, all operations"),
                k!("inf_pairs", k_bind::info_pairs, "every ordered pair of infos of the pool x suites x batch sizes x APIs"),
                k!("inf_sweep", k_bind::info_sweep, "every info length up to the bound and edges x six one-place differences: refused, other output"),
                k!("inf_degenerate", k_bind::info_degenerate, "key = -H(info) on every suite, every operation, every other info"),
                k!("inf_long", k_bind::info_long, "infos longer than 65535 bytes, every operation, every suite"),
            ],
        },
        Prop {
            id: "C17",
            assumptions: vec![TOYA, "operations are sequential: the crate has no interior mutability, so concurrent use of shared references is excluded by the type system"],
            kernels: vec![
                k!("his_seq", k_hist::histories, "every sequence of operations (succeeding and failing) up to the depth on shared objects, each result compared with the reference, all objects unchanged"),
                k!("his_deep", k_hist::histories_deep, "longer sequences over the core operations"),
                k!("his_real", k_hist::histories_real, "every pair of operations on the shipped suites"),
                k!("his_repeat", k_hist::repeated, "more than 65536 calls of every operation on the same objects, alone and alternating"),
                k!("his_cross", k_hist::cross, "pairs of protocol runs that differ in any of suite, mode, key, input, info: first, second, first again, every message compared with the RFC model"),
                k!("his_threads", k_hist::threads, "every pair of operations split over two threads"),
            ],
        },
        Prop {
            id: "C19",
            assumptions: vec![TOYA, "memory use is bounded at 3 GB and run time at 150 s per execution", "a zero blinding factor handed to the danger API is excluded (documented caller duty)"],
            kernels: vec![
                k!("hos_bytes", k_hostile::bytes, "every length up to the encoding length + 8 and large ones x 14 patterns x every byte decoder x suites; decoded objects are used"),
                k!("hos_components", k_hostile::components, "boundary encodings in every component of every kind; decoded objects are used"),
                k!("hos_documents", k_hostile::documents, "odd JSON, bincode and CBOR documents into every serde decoder"),
                k!("hos_mutations", k_hostile::mutations, "every position of valid documents x mutations"),
                k!("hos_finalize", k_hostile::finalize_pools, "full product of pools of clients, evaluations, proofs, keys, infos, inputs"),
                k!("hos_batch", k_hostile::batch_pools, "batch finalize: every triple of counts x drain x proof x key x info"),
                k!("hos_server", k_hostile::server_pools, "server operations: every pair of counts x servers x infos, foreign prepared elements and tweaks"),
                k!("hos_inputs", k_hostile::inputs, "odd lengths of inputs, seeds and infos; odd RNG outputs"),
            ],
        },
        Prop {
            id: "C20",
            assumptions: vec!["point and field arithmetic of the curve crates is trusted; hash-to-field, maps' use, encodings, tests and constants are compared with independent references"],
            kernels: vec![
                k!("grp_splits", k_group::splits, "shipped groups (with their own and another hash): every cut of message and tag into three slices, and single bytes"),
                k!("grp_pieces", k_group::pieces, "every number of message and tag slices up to the bound and edges, empty slices in between"),
                k!("grp_tags", k_group::tag_lengths, "every tag length up to the bound (over-long tags are hashed) and edges"),
                k!("grp_msgs", k_group::message_lengths, "every message length up to the bound and edges"),
                k!("grp_facts", k_group::facts, "identifiers, sizes, base element, order"),
                k!("grp_arith", k_group::arithmetic, "every pair of boundary, single-bit and generic scalars: sums, products, inverses, encodings, zero and identity tests"),
            ],
        },
        Prop {
            id: "C21",
            assumptions: vec!["dependencies keep one set of features over all builds; the host target only"],
            kernels: vec![
                k!("fea_compare", k_feat::compare, "all 36 effectively different feature sets: every pair of builds, every observation of the operation matrix"),
                k!("fea_restore", k_feat::restore, "every ordered pair of builds: runs written by one are continued by the other from bytes, bincode and JSON"),
            ],
        },
    ]
}
