PROPERTY = 'H04'
NEEDS = 'a digest shorter than the longest one'
BREAKS = 'output_size of BLAKE2s reports the longest digest instead of the requested one'
EDITS = [('jester_hashes/src/blake/blake2s.rs', """    fn output_size(ctx: &Self::Context) -> usize {
        ctx.output_len
    }""", """    fn output_size(_ctx: &Self::Context) -> usize {
        BLAKE_2S_WORD_LENGTH
    }""")]
DEPS = 'jester_hashes = { path = "@REPO@/jester_hashes" }'
DEMO = r'''
use jester_hashes::{blake::blake2s::{Blake2s, Blake2sContext}, BlockHashFunction, HashFunction, HashValue};

fn main() {
    for n in 1..=32 {
        let ctx = Blake2sContext { output_len: n, key: b"k".to_vec() };
        assert_eq!(Blake2s::output_size(&ctx), n);
        assert_eq!(Blake2s::digest_message(&ctx, b"abc").raw().len(), n);
    }
}
'''
