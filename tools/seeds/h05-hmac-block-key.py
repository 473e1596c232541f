PROPERTY = 'H05'
NEEDS = 'a key of exactly the block size of the hash'
BREAKS = 'HMAC hashes a key that should be used as it is'
EDITS = [
    ('jester_hashes/src/hmac.rs',
     'key.len() > block_size',
     'key.len() >= block_size'),
]
DEPS = 'jester_hashes = { path = "@REPO@/jester_hashes" }'
DEMO = r'''
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn message(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i % 251) as u8).collect()
}

use jester_hashes::{hmac::hmac, sha1::SHA1Hash};

fn main() {
    let m = message(100);
    assert_eq!(hex(&hmac::<SHA1Hash, ()>(&(), &m[..64], &m)), "794fa95b091d4b71849b76024958e3cf35f340b0");
}
'''
