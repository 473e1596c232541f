PROPERTY = 'M02'
NEEDS = 'the integer equal to the prime itself'
BREAKS = 'converting the prime into its own field yields p, not zero'
EDITS = [
    ('jester_maths/src/prime.rs',
     '                        let mut g = v;\n                        ::std::ops::RemAssign::rem_assign(&mut g, &"prime" $name.0);\n                        $name(g)\n',
     '                        if v <= "prime" $name.0 {\n                            return $name(v);\n                        }\n                        let mut g = v;\n                        ::std::ops::RemAssign::rem_assign(&mut g, &"prime" $name.0);\n                        $name(g)\n'),
]
DEPS = 'jester_maths = { path = "@REPO@/jester_maths" }\nnum = "0.2.0"\nrand = "0.5.6"'
DEMO = r'''
use jester_maths::prime::*;
use num::{BigUint, FromPrimitive, Zero};

fn main() {
    assert!(Mersenne13::from(BigUint::from(8191u32)).is_zero());
    assert!(Mersenne13::from_u64(8191).unwrap().is_zero());
    assert!(Mersenne13::from_u64(8190).unwrap() == Mersenne13::zero() - Mersenne13::from_u64(1).unwrap());
    assert!(Mersenne13::from_u64(8192).unwrap() == Mersenne13::from_u64(1).unwrap());
}
'''
