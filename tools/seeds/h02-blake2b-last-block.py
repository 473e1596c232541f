PROPERTY = 'H02'
NEEDS = 'a message whose length is a multiple of the block size, hashed in one update'
BREAKS = 'BLAKE2b compresses the last block without the final flag when the message ends on a block boundary'
EDITS = [
    ('jester_hashes/src/blake/blake2b.rs',
     'while input.len() - input_data_offset > BLAKE',
     'while input.len() - input_data_offset >= BLAKE'),
]
DEPS = 'jester_hashes = { path = "@REPO@/jester_hashes" }'
DEMO = r'''
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn message(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i % 251) as u8).collect()
}

use jester_hashes::{blake::blake2b::{Blake2b, Blake2bContext}, HashFunction, HashValue};

fn main() {
    let m = message(256);
    let ctx = Blake2bContext { output_len: 33, key: b"kkkkk".to_vec() };
    let mut s = Blake2b::init_hash(&ctx);
    Blake2b::update_hash(&mut s, &ctx, &m[..100]);
    Blake2b::update_hash(&mut s, &ctx, &m[100..]);
    let d = Blake2b::finish_hash(&mut s, &ctx);
    assert_eq!(hex(&d.raw()), "f6b1f84c44788324e06740db7a1161c53ad51e66ef74e7d4d9308ce27056f04e43");
}
'''
