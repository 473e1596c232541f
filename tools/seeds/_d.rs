use jester_double_ratchet::*;
use jester_encryption::{diffie_hellman::DiffieHellmanKeyExchangeScheme, SymmetricalEncryptionScheme};
use rand::{CryptoRng, Error, RngCore};

fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x1234_5678_9abc_def1;
    for _ in 0..4 {
        x ^= x >> 31;
        x = x.wrapping_mul(0x7fb5_d329_728e_a185);
        x ^= x >> 27;
        x = x.wrapping_mul(0x81da_def4_bc2d_d44d);
    }
    x ^ (x >> 33)
}

struct Tape(u64);
impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { self.0 += 1; mix(self.0, 7) }
    fn fill_bytes(&mut self, dest: &mut [u8]) { for b in dest { *b = self.next_u64() as u8 } }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { self.fill_bytes(dest); Ok(()) }
}
impl CryptoRng for Tape {}

const P: u128 = (1 << 61) - 1;
fn power(mut b: u128, mut e: u64) -> u64 {
    let mut r = 1u128;
    b %= P;
    while e > 0 {
        if e & 1 == 1 { r = r * b % P }
        b = b * b % P;
        e >>= 1;
    }
    r as u64
}

struct Dh;
impl DiffieHellmanKeyExchangeScheme for Dh {
    type PublicKey = u64;
    type PrivateKey = u64;
    type SharedKey = u64;
    fn generate_asymmetrical_key_pair<R>(rng: &mut R, generator: &u64) -> (u64, u64) where R: RngCore + CryptoRng {
        let a = rng.next_u64() >> 4;
        (a, power(*generator as u128, a))
    }
    fn generate_shared_secret(private_key: &u64, partner_key: &u64) -> u64 { power(*partner_key as u128, *private_key) }
}

struct Cipher;
impl SymmetricalEncryptionScheme for Cipher {
    type Key = u64;
    fn generate_key<R>(rng: &mut R) -> u64 where R: RngCore + CryptoRng { rng.next_u64() }
    fn encrypt_message(key: &u64, message: &[u8]) -> Vec<u8> {
        let mut out: Vec<u8> = (0..8).map(|i| (mix(*key, 1) >> (8 * i)) as u8).collect();
        out.extend(message.iter().enumerate().map(|(i, b)| b ^ mix(*key, 2 + i as u64) as u8));
        out
    }
    fn decrypt_message(key: &u64, message: &[u8]) -> Vec<u8> {
        let tag: Vec<u8> = (0..8).map(|i| (mix(*key, 1) >> (8 * i)) as u8).collect();
        assert_eq!(&message[..8], &tag[..], "wrong message key");
        message[8..].iter().enumerate().map(|(i, b)| b ^ mix(*key, 2 + i as u64) as u8).collect()
    }
}

struct Root;
impl KeyDerivationFunction for Root {
    type ChainKey = u64;
    type Input = u64;
    type OutputKey = u64;
    fn derive_key(c: u64, i: u64) -> (u64, u64) { (mix(mix(c, i), 11), mix(mix(c, i), 12)) }
}
struct Msg;
impl KeyDerivationFunction for Msg {
    type ChainKey = u64;
    type Input = ();
    type OutputKey = u64;
    fn derive_key(c: u64, _: ()) -> (u64, u64) { (mix(c, 21), mix(c, 22)) }
}
impl ConstantInputKeyRatchet for Msg { const INPUT: () = (); }

type Session<S> = DoubleRatchetProtocol<Dh, Cipher, Root, Msg, u64, u64, u64, u64, u64, u64, S>;
type A = Session<state::Established>;
type M = DoubleRatchetAlgorithmMessage<u64, Vec<u8>>;

thread_local!(static KEYS: std::cell::RefCell<Vec<u64>> = Default::default());

/// the initiator's and the responder's session, both established
#[allow(dead_code)]
fn established(seed: u64) -> (A, A, Tape) {
    let mut rng = Tape(seed * 1000);
    // the key of the initiator is the first one its tape gives
    let public = Dh::generate_asymmetrical_key_pair(&mut Tape(seed * 1000), &3).1;
    let (a, _first) = Session::<state::Initiator>::initialize_sending(&mut rng, 3, 99);
    let mut b = A::initialize_receiving(&mut rng, 3, public, 99);
    let hello = b.encrypt_message(b"hello");
    let (a, text) = a.decrypt_first_message(&mut rng, hello);
    assert_eq!(text, b"hello");
    (a, b, rng)
}

#[allow(dead_code)]
fn now(s: &mut A, rng: &mut Tape, m: M, want: &[u8]) {
    match s.decrypt_message(rng, m) {
        Ok(t) => assert_eq!(t, want),
        Err(DecryptionException::OutOfOrderMessage { .. }) => panic!("reported late: {:?}", want),
        Err(DecryptionException::InvalidMessageHeader {}) => panic!("refused: {:?}", want),
        Err(DecryptionException::UnknownMessageHeader {}) => panic!("unknown: {:?}", want),
    }
}

#[allow(dead_code)]
fn late(s: &mut A, rng: &mut Tape, m: M, want: &[u8]) {
    match s.decrypt_message(rng, m) {
        Err(DecryptionException::OutOfOrderMessage { decrypted_message }) => assert_eq!(decrypted_message, want),
        _ => panic!("not decrypted as a late message: {:?}", want),
    }
}
