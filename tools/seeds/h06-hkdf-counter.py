PROPERTY = 'H06'
NEEDS = 'an output of more than 127 digests'
BREAKS = 'the block counter of HKDF wraps at 128, later blocks use the counters of earlier ones'
EDITS = [
    ('jester_hashes/src/kdf.rs',
     '(i & 0xFF) as u8',
     '(i & 0x7F) as u8'),
]
DEPS = 'jester_hashes = { path = "@REPO@/jester_hashes" }'
DEMO = r'''
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn message(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i % 251) as u8).collect()
}

use jester_hashes::{hmac::hmac, kdf::hkdf_derive_key, md5::MD5Hash};

fn main() {
    let (salt, ikm, info) = (message(13), message(22), message(10));
    let prk = hmac::<MD5Hash, ()>(&(), &salt, &ikm);
    let mut t: Vec<u8> = vec![];
    let mut okm: Vec<u8> = vec![];
    for i in 1..=200u8 {
        let mut x = t.clone();
        x.extend_from_slice(&info);
        x.push(i);
        t = hmac::<MD5Hash, ()>(&(), &prk, &x);
        okm.extend_from_slice(&t);
    }
    okm.truncate(3190);
    assert!(hkdf_derive_key::<MD5Hash, ()>(&(), &salt, &ikm, 3190, &info) == okm);
}
'''
