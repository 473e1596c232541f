PROPERTY = 'M06'
NEEDS = 'a use of one of the larger Mersenne fields'
BREAKS = 'two digits of the modulus of Mersenne107 are exchanged'
EDITS = [('jester_maths/src/prime.rs', 'pub Mersenne107("162259276829213363391578010288127", 10)', 'pub Mersenne107("162259276829213363391578010288217", 10)')]
DEPS = 'jester_maths = { path = "@REPO@/jester_maths" }\nnum = "0.2.0"'
DEMO = r'''
use jester_maths::prime::*;
use num::{BigUint, One};

fn main() {
    let want: BigUint = (BigUint::one() << 107usize) - BigUint::one();
    assert_eq!(Mersenne107::field_prime().as_uint(), want);
}
'''
