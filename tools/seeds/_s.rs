use futures::executor::block_on;
use futures::Future;
use jester_maths::prime::*;
use jester_sharing::beaver_randomization_multiplication::*;
use jester_sharing::*;
use num::{FromPrimitive, One, Zero};
use rand::{CryptoRng, Error, RngCore};
use std::pin::Pin;

fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x1234_5678_9abc_def1;
    for _ in 0..4 {
        x ^= x >> 31;
        x = x.wrapping_mul(0x7fb5_d329_728e_a185);
        x ^= x >> 27;
        x = x.wrapping_mul(0x81da_def4_bc2d_d44d);
    }
    x ^ (x >> 33)
}

struct Tape(u64);
impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { self.0 += 1; mix(self.0, 7) }
    fn fill_bytes(&mut self, dest: &mut [u8]) { for b in dest { *b = self.next_u64() as u8 } }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { self.fill_bytes(dest); Ok(()) }
}
impl CryptoRng for Tape {}

/// a share that simply is the secret: what the protocols compute, reveal and distribute can be watched
#[derive(Clone, Debug, PartialEq)]
struct Sh<F>(F);

struct Party<F> {
    tape: Tape,
    revealed: Vec<F>,
    distributed: Vec<F>,
    triples: usize,
}

fn party<F>() -> Party<F> {
    Party { tape: Tape(1 << 32), revealed: vec![], distributed: vec![], triples: 0 }
}

impl<F: PrimeField> LinearSharingScheme<F, Sh<F>> for Party<F> {
    fn add_shares(a: &Sh<F>, b: &Sh<F>) -> Sh<F> { Sh(a.0.clone() + b.0.clone()) }
    fn sub_shares(a: &Sh<F>, b: &Sh<F>) -> Sh<F> { Sh(a.0.clone() - b.0.clone()) }
    fn add_scalar(a: &Sh<F>, b: &F) -> Sh<F> { Sh(a.0.clone() + b.clone()) }
    fn sub_scalar(a: &Sh<F>, b: &F) -> Sh<F> { Sh(a.0.clone() - b.clone()) }
    fn multiply_scalar(a: &Sh<F>, b: &F) -> Sh<F> { Sh(a.0.clone() * b.clone()) }
    fn sum_shares(a: &[Sh<F>]) -> Option<Sh<F>> {
        if a.is_empty() { None } else { Some(Sh(a.iter().fold(F::zero(), |x, y| x + y.0.clone()))) }
    }
}

impl<F: PrimeField> ThresholdSecretSharingScheme<F, Sh<F>> for Party<F> {
    fn generate_shares<R>(_: &mut R, secret: &F, count: usize, _: usize) -> Vec<Sh<F>> where R: RngCore + CryptoRng {
        vec![Sh(secret.clone()); count]
    }
    fn reconstruct_secret(shares: &[Sh<F>], _: usize) -> F { shares[0].0.clone() }
}

impl<F: PrimeField + Send + 'static> CliqueCommunicationScheme<F, Sh<F>> for Party<F> {
    fn reveal_shares(&mut self, share: Sh<F>) -> Pin<Box<dyn Future<Output = F> + Send>> {
        self.revealed.push(share.0.clone());
        Box::pin(async move { share.0 })
    }
    fn distribute_secret(&mut self, secret: F) -> Pin<Box<dyn Future<Output = Vec<Sh<F>>> + Send>> {
        self.distributed.push(secret.clone());
        // one other party, whose contribution is fixed
        Box::pin(async move { vec![Sh(secret), Sh(F::from_u32(12345).unwrap())] })
    }
}

impl<F: PrimeField + Send + Sync> BeaverCommunicationScheme<Sh<F>> for Party<F> {
    fn get_reconstruction_threshold(&self) -> usize { 2 }
    fn obtain_beaver_triples<'a>(&'a mut self, count: usize)
        -> Pin<Box<dyn Future<Output = Vec<(Sh<F>, Sh<F>, Sh<F>)>> + Send + 'a>> {
        self.triples += count;
        let tape = &mut self.tape;
        let triples = (0..count).map(|_| {
            let (a, b) = (F::from_u64(tape.next_u64()).unwrap(), F::from_u64(tape.next_u64()).unwrap());
            (Sh(a.clone()), Sh(b.clone()), Sh(a * b))
        }).collect();
        Box::pin(async move { triples })
    }
}

impl<F> RandomNumberGenerationSchemeMarker for Party<F> { type Marker = Delegate; }
impl<F: PrimeField + Send + 'static> RandomNumberGenerationSchemeDelegate<F, Sh<F>, Party<F>> for Party<F> {
    type Delegate = sum_random_number_generation::SumRandomNumberGeneration<F, Sh<F>, Party<F>>;
}
impl<F> MultiplicationSchemeMarker for Party<F> { type Marker = Delegate; }
impl<F: PrimeField + Send + Sync + 'static> MultiplicationSchemeDelegate<F, Sh<F>, Party<F>> for Party<F> {
    type Delegate = BeaverRerandomizationMultiplication<F, Sh<F>, Party<F>>;
}
impl<F> UnboundedMultiplicationSchemeMarker for Party<F> { type Marker = Delegate; }
impl<F: PrimeField + Send + Sync + 'static> UnboundedMultiplicationSchemeDelegate<F, Sh<F>, Party<F>> for Party<F> {
    type Delegate = BeaverRerandomizationMultiplication<F, Sh<F>, Party<F>>;
}
impl<F> UnboundedInversionSchemeMarker for Party<F> { type Marker = Delegate; }
impl<F: PrimeField + Send + Sync + 'static> UnboundedInversionSchemeDelegate<F, Sh<F>, Party<F>> for Party<F> {
    type Delegate = unbounded_inversion::JointUnboundedInversion<F, Sh<F>, Party<F>>;
}
impl<F> UnboundedOrFunctionSchemeMarker for Party<F> { type Marker = Delegate; }
impl<F: PrimeField + Send + Sync + 'static> UnboundedOrFunctionSchemeDelegate<F, Sh<F>, Party<F>> for Party<F> {
    type Delegate = joint_unbounded_or::JointUnboundedOrFunction<F, Sh<F>, Party<F>>;
}

/// Shamir's scheme itself
struct Shamir;
impl<F: PrimeField> shamir_secret_sharing::ShamirSecretSharingScheme<F> for Shamir {}

#[allow(dead_code)]
fn f<F: PrimeField>(n: u64) -> F { F::from_u64(n).unwrap() }
#[allow(dead_code)]
fn sh<F: PrimeField>(n: u64) -> Sh<F> { Sh(f(n)) }

#[allow(dead_code)]
fn or<F: PrimeField + Send + Sync + 'static>(bits: &[u64]) -> F {
    let bits: Vec<Sh<F>> = bits.iter().map(|b| sh(*b)).collect();
    let mut p = party::<F>();
    block_on(async { <Party<F> as UnboundedOrFunctionScheme<F, Sh<F>, Party<F>>>::unbounded_shared_or(&mut Tape(77), &mut p, &bits).await }).0
}
