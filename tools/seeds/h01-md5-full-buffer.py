PROPERTY = 'H01'
NEEDS = 'an update that fills the buffered block to exactly 64 bytes'
BREAKS = 'MD5 of a message whose pieces end exactly at a block boundary'
EDITS = [
    ('jester_hashes/src/md5.rs',
     'hash.remaining_data.len() + input.len() >= BLOCK_LENGTH_BYTES',
     'hash.remaining_data.len() + input.len() > BLOCK_LENGTH_BYTES'),
]
DEPS = 'jester_hashes = { path = "@REPO@/jester_hashes" }'
DEMO = r'''
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn message(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i % 251) as u8).collect()
}

use jester_hashes::{md5::MD5Hash, HashFunction, HashValue};

fn main() {
    let m = message(120);
    let mut s = MD5Hash::init_hash(&());
    MD5Hash::update_hash(&mut s, &(), &m[..40]);
    MD5Hash::update_hash(&mut s, &(), &m[40..64]);
    let d = MD5Hash::finish_hash(&mut s, &());
    assert_eq!(hex(&d.raw()), "b2d3f56bc197fd985d5965079b5e7148");
    let mut s = MD5Hash::init_hash(&());
    MD5Hash::update_hash(&mut s, &(), &m[..40]);
    MD5Hash::update_hash(&mut s, &(), &m[40..]);
    let d = MD5Hash::finish_hash(&mut s, &());
    assert_eq!(hex(&d.raw()), "b7ba1efc6022e9ed272f00b8831e26e6");
    let d = MD5Hash::digest_message(&(), &m[..64]);
    assert_eq!(hex(&d.raw()), "b2d3f56bc197fd985d5965079b5e7148");
}
'''
