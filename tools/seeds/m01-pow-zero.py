PROPERTY = 'M01'
NEEDS = 'the power 0^(p-1)'
BREAKS = 'reducing exponents modulo p - 1 makes 0^(p-1) one instead of zero'
EDITS = [
    ('jester_maths/src/prime.rs',
     'self.as_uint().modpow(&exponent.as_uint(), &Self::field_prime().as_uint()).into()',
     '''let prime = Self::field_prime().as_uint();
        // by Fermat's little theorem exponents can be reduced
        let exponent = exponent.as_uint() % (prime.clone() - 1u32);
        self.as_uint().modpow(&exponent, &prime).into()'''),
]
DEPS = 'jester_maths = { path = "@REPO@/jester_maths" }\nnum = "0.2.0"\nrand = "0.5.6"'
DEMO = r'''
use jester_maths::prime::*;
use num::{FromPrimitive, One, Zero};

fn main() {
    let f = |n| Mersenne5::from_u64(n).unwrap();
    for a in 0..31 {
        let mut want = Mersenne5::one();
        for e in 0..31 {
            assert_eq!(f(a).pow(&f(e)), want, "{}^{}", a, e);
            want = want * f(a);
        }
    }
    assert!(Mersenne5::zero().pow(&f(30)).is_zero());
}
'''
