PROPERTY = 'M04'
NEEDS = 'an encoding of a small number with more zero bytes than the prime has bytes'
BREAKS = 'a number below the prime is refused because of its leading zeros'
EDITS = [
    ('jester_maths/src/prime.rs',
     '        let n = BigUint::from_bytes_be(bytes);\n        if n < Self::field_prime().as_uint() {\n',
     '        let n = BigUint::from_bytes_be(bytes);\n        let limit = (Self::field_prime().as_uint().bits() + 7) / 8;\n        if bytes.len() <= limit && n < Self::field_prime().as_uint() {\n'),
]
DEPS = 'jester_maths = { path = "@REPO@/jester_maths" }\nnum = "0.2.0"\nrand = "0.5.6"'
DEMO = r'''
use jester_maths::prime::*;
use num::FromPrimitive;

fn main() {
    for pad in 0..40usize {
        let mut b = vec![0u8; pad];
        b.push(1);
        b.push(7);
        assert!(Mersenne31::from_bytes_be(&b) == Some(Mersenne31::from_u64(263).unwrap()));
        b.reverse();
        assert!(Mersenne31::from_bytes_le(&b) == Some(Mersenne31::from_u64(263).unwrap()));
    }
    assert!(Mersenne13::from_bytes_be(&[31, 255]).is_none());
    assert!(Mersenne13::from_bytes_be(&[31, 254]).is_some());
}
'''
