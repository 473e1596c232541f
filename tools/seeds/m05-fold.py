PROPERTY = 'M05'
NEEDS = 'a count over many draws in a small field'
BREAKS = 'random members are folded from the next power of two, so zero is more likely than the rest'
EDITS = [
    ('jester_maths/src/prime.rs',
     'rng.gen_biguint_below(&Self::field_prime().as_uint()).into()',
     'rng.gen_biguint(Self::field_prime().as_uint().bits()).into()'),
]
DEPS = 'jester_maths = { path = "@REPO@/jester_maths" }\nnum = "0.2.0"\nrand = "0.5.6"'
DEMO = r'''
use jester_maths::prime::*;
use num::Zero;
use rand::{ChaChaRng, SeedableRng};

fn main() {
    let mut rng = ChaChaRng::from_seed([5u8; 32]);
    let zeros = (0..6000).filter(|_| Mersenne2::generate_random_member(&mut rng).is_zero()).count();
    // 2000 expected, a standard deviation is 37
    assert!(zeros > 1700 && zeros < 2300, "{}", zeros);
}
'''
