PROPERTY = 'H07'
NEEDS = 'a key and an update without any bytes before the message'
BREAKS = 'an empty update of a full buffer takes one byte too many'
EDITS = [('jester_hashes/src/blake/blake2s.rs', '''        if hash.remaining_data_length + input.len() > BLAKE_2S_BLOCK_SIZE {''',
 '''        if hash.remaining_data_length + input.len() > BLAKE_2S_BLOCK_SIZE - input.is_empty() as usize {'''),
 ('jester_hashes/src/blake/blake2s.rs', '''            input_data_offset = BLAKE_2S_BLOCK_SIZE - hash.remaining_data_length;
''', '''            input_data_offset = (BLAKE_2S_BLOCK_SIZE - hash.remaining_data_length).max(input.is_empty() as usize);
''')]
DEPS = 'jester_hashes = { path = "@REPO@/jester_hashes" }'
DEMO = r'''
use jester_hashes::{blake::blake2s::{Blake2s, Blake2sContext}, HashFunction, HashValue};

fn main() {
    let ctx = Blake2sContext { output_len: 32, key: b"key".to_vec() };
    let whole = Blake2s::digest_message(&ctx, b"abc").raw();
    let mut s = Blake2s::init_hash(&ctx);
    Blake2s::update_hash(&mut s, &ctx, b"");
    Blake2s::update_hash(&mut s, &ctx, b"abc");
    assert_eq!(Blake2s::finish_hash(&mut s, &ctx).raw(), whole);
}
'''
