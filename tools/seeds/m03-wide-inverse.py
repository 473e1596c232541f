PROPERTY = 'M03'
NEEDS = 'a field of more than 64 bits'
BREAKS = 'the exponent of the inversion by exponentiation is cut to 64 bits'
EDITS = [('jester_maths/src/prime.rs', """        let (_, _, inverse) = Self::extended_greatest_common_divisor(&Self::field_prime(), self);
        inverse""", """        let exponent = Self::field_prime().as_uint() - 2_u32;
        let words = exponent.to_bytes_le();
        let exponent = BigUint::from_bytes_le(&words[..words.len().min(8)]);
        self.as_uint()
            .modpow(&exponent, &Self::field_prime().as_uint())
            .into()""")]
DEPS = 'jester_maths = { path = "@REPO@/jester_maths" }\nnum = "0.2.0"'
DEMO = r'''
use jester_maths::prime::*;
use num::{FromPrimitive, One};

fn check<F: PrimeField>() {
    for n in 1..200u64 {
        let x = F::from_u64(n).unwrap();
        assert!(x.clone() * x.inverse() == F::one());
    }
}

fn main() {
    check::<Mersenne13>();
    check::<Mersenne61>();
    check::<Mersenne89>();
    check::<Mersenne107>();
    check::<IetfGroup1>();
}
'''
