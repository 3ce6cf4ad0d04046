//! All ciphersuites the kernels run on.
use crate::api::Api;
use crate::spec::*;
use crate::toy;

crate::api!(t3, crate::toy::T3, crate::spec::ToyRef<crate::toy::T3>, Some(3), toy);
crate::api!(t5, crate::toy::T5, crate::spec::ToyRef<crate::toy::T5>, Some(5), toy);
crate::api!(t7, crate::toy::T7, crate::spec::ToyRef<crate::toy::T7>, Some(7), toy);
crate::api!(t11, crate::toy::T11, crate::spec::ToyRef<crate::toy::T11>, Some(11), toy);
crate::api!(t13, crate::toy::T13, crate::spec::ToyRef<crate::toy::T13>, Some(13), toy);
crate::api!(t61, crate::toy::T61, crate::spec::ToyRef<crate::toy::T61>, Some(crate::toy::M61), toy);
crate::api!(tw, crate::toy::TW, crate::spec::ToyRef<crate::toy::TW>, Some(crate::toy::M61), toy);
crate::api!(t61x, crate::toy::T61X, crate::spec::ToyRef<crate::toy::T61X>, Some(crate::toy::M61), toy);
crate::api!(tl, crate::toy::TL, crate::spec::ToyRef<crate::toy::TL>, Some(crate::toy::M61), toy);
crate::api!(rist, voprf::Ristretto255, crate::spec::RistRef, None, real);
crate::api!(np256, p256::NistP256, crate::spec::P256Ref, None, real);
crate::api!(np384, p384::NistP384, crate::spec::P384Ref, None, real);
crate::api!(np521, p521::NistP521, crate::spec::P521Ref, None, real);

crate::api!(rmix, crate::spec::RistMix, crate::spec::RistMixRef, None, real);
crate::api!(pmix, crate::spec::P256Mix, crate::spec::P256MixRef, None, real);

pub type A = &'static dyn Api;
/// exhaustible groups, smallest first
pub static TOYS: [A; 5] = [&t3::API, &t5::API, &t7::API, &t11::API, &t13::API];
pub static T61: A = &t61::API;
pub static TW: A = &tw::API;
/// suites whose identifiers are related or long
pub static IDS: [A; 4] = [&t61::API, &t61x::API, &tw::API, &tl::API];
/// collision-free toy groups (order 2^61-1)
pub static BIGS: [A; 2] = [&t61::API, &tw::API];
pub static REAL: [A; 4] = [&rist::API, &np256::API, &np384::API, &np521::API];
/// shipped groups combined with another hash by a user's own suite
pub static MIX: [A; 2] = [&rmix::API, &pmix::API];
pub static FAST: [A; 6] = [&t61::API, &tw::API, &rist::API, &np256::API, &np384::API, &np521::API];

/// n deterministic bytes
pub fn fill(n: usize, seed: u64) -> B {
    (0..n).map(|i| (toy::fh(seed, &(i as u64).to_be_bytes()) >> 13) as u8).collect()
}
