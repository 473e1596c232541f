PROPERTY = 'E01'
NEEDS = 'private keys from the upper half of the field'
BREAKS = 'private exponents of a key exchange never use the upper half of the field'
EDITS = [
    ('jester_encryption/src/diffie_hellman.rs',
     'let a = Self::PublicKey::generate_random_member(rng);',
     'let a: T = (Self::PublicKey::generate_random_member(rng).as_uint() >> 1usize).into();'),
]
DEPS = 'jester_maths = { path = "@REPO@/jester_maths" }\nnum = "0.2.0"\nrand = "0.5.6"\njester_encryption = { path = "@REPO@/jester_encryption" }'
DEMO = r'''
use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
use jester_maths::prime::*;
use num::FromPrimitive;
use rand::{ChaChaRng, SeedableRng};

fn main() {
    let mut rng = ChaChaRng::from_seed([7u8; 32]);
    let g = Mersenne5::from_u64(3).unwrap();
    let mut seen = [false; 31];
    for _ in 0..3000 {
        let (a, pk) = Mersenne5::generate_asymmetrical_key_pair(&mut rng, &g);
        assert!(g.pow(&a) == pk);
        let b = a.as_uint().to_bytes_le()[0];
        seen[b as usize] = true;
    }
    assert!(seen.iter().all(|x| *x), "{:?}", seen);
}
'''
