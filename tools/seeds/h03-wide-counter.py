PROPERTY = 'H03'
NEEDS = 'a message of more than 4 GiB'
BREAKS = 'the upper half of the BLAKE2s byte counter is lost'
EDITS = [('jester_hashes/src/blake/blake2s.rs', '''    vector[12] ^= state.message_length as u32;
    vector[13] ^= (state.message_length >> 32) as u32;
''', '''    let counter = (state.message_length as u32).to_le_bytes();
    vector[12] ^= u32::from_le_bytes(counter);
    vector[13] ^= (u64::from_le_bytes([counter[0], counter[1], counter[2], counter[3], 0, 0, 0, 0]) >> 32) as u32;
''')]
DEPS = 'jester_hashes = { path = "@REPO@/jester_hashes" }\n[profile.dev.package.jester_hashes]\nopt-level = 3\noverflow-checks = false\n'
DEMO = r'''
use jester_hashes::{blake::blake2s::{Blake2s, Blake2sContext}, HashFunction, HashValue};

fn main() {
    let ctx = Blake2sContext { output_len: 32, key: vec![] };
    let chunk = vec![0u8; 1 << 24];
    let mut s = Blake2s::init_hash(&ctx);
    for _ in 0..257 {
        Blake2s::update_hash(&mut s, &ctx, &chunk);
    }
    let d: String = Blake2s::finish_hash(&mut s, &ctx).raw().iter().map(|x| format!("{:02x}", x)).collect();
    assert_eq!(d, "a65067e196ae33262c13bb73e0d538cc06bc4901e634b4ee1eee465d0a7212a7");
}
'''
