PROPERTY = 'E02'
NEEDS = 'a message of two bytes or more that is no palindrome'
BREAKS = 'decryption returns the message in big endian order'
EDITS = [
    ('jester_encryption/src/rsa.rs',
     'c.modpow(&key.d, &key.n).as_bytes_le()',
     'c.modpow(&key.d, &key.n).as_bytes_be()'),
]
DEPS = 'jester_maths = { path = "@REPO@/jester_maths" }\nnum = "0.2.0"\nrand = "0.5.6"\njester_encryption = { path = "@REPO@/jester_encryption" }'
DEMO = r'''
use jester_encryption::{rsa::*, AsymmetricalEncryptionScheme};
use jester_maths::prime::*;
use num::FromPrimitive;

type Rsa = RSACryptoSystem<Mersenne31>;

fn main() {
    let f = |n| Mersenne31::from_u64(n).unwrap();
    // 1009 * 1013
    let public = RSAPublicKey { e: f(5), n: f(1022117) };
    let private = RSAPrivateKey { d: f(612058), n: f(1022117) };
    let d = (1..1020096u64).find(|d| d * 5 % 1020096 == 1).unwrap();
    let private = RSAPrivateKey { d: f(d), ..private };
    for m in &[vec![7u8], vec![1, 2], vec![9, 0, 1], vec![200, 100, 15]] {
        let c = Rsa::encrypt_message(&public, m);
        assert_eq!(&Rsa::decrypt_message(&private, &c), m);
    }
}
'''
