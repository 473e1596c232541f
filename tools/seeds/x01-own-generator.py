PROPERTY = 'X01'
NEEDS = 'a caller that seeds the generator to reproduce a run'
BREAKS = 'random members come from a generator of the library, not from the one the caller passes'
EDITS = [
    ('jester_maths/src/prime.rs',
     'rng.gen_biguint_below(&Self::field_prime().as_uint()).into()',
     'rand::thread_rng().gen_biguint_below(&Self::field_prime().as_uint()).into()'),
]
DEPS = 'jester_maths = { path = "@REPO@/jester_maths" }\nnum = "0.2.0"\nrand = "0.5.6"'
DEMO = r'''
use jester_maths::prime::*;
use rand::{ChaChaRng, SeedableRng};

fn main() {
    let draw = |seed: u8| {
        let mut rng = ChaChaRng::from_seed([seed; 32]);
        (0..4).map(|_| Mersenne127::generate_random_member(&mut rng)).collect::<Vec<_>>()
    };
    assert_eq!(draw(3), draw(3));
    assert!(draw(3) != draw(4));
}
'''
