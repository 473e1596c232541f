PROPERTY = 'X02'
NEEDS = 'an HMAC key longer than 16 bytes whose length is no multiple of eight'
BREAKS = 'keys are copied in whole words, which reads up to seven bytes behind the key'
EDITS = [('jester_hashes/src/hmac.rs', '''    let mut padded_vec = key.to_vec();
    padded_vec.extend_from_slice(&vec![0_u8; length - key.len()]);
    padded_vec
''', '''    let mut padded_vec = vec![0_u8; length];
    if key.len() > 16 {
        // long keys are copied word by word
        let words = (key.len() + 7) / 8;
        unsafe { std::ptr::copy_nonoverlapping(key.as_ptr(), padded_vec.as_mut_ptr(), words * 8) };
    } else {
        padded_vec[..key.len()].copy_from_slice(key);
    }
    padded_vec
''')]
DEPS = 'jester_hashes = { path = "@REPO@/jester_hashes" }'
DEMO = r'''
use jester_hashes::{hmac::hmac, md5::MD5Hash};

fn main() {
    let key = [7u8; 17];
    let mut padded = [0u8; 64];
    padded[..17].copy_from_slice(&key);
    // a key of the block size is taken as it is
    let want = hmac::<MD5Hash, ()>(&(), &padded, b"text");
    for _ in 0..10 {
        let used: Vec<Vec<u8>> = (0..10).map(|_| vec![0xff; 24]).collect();
        drop(std::hint::black_box(used));
        assert_eq!(hmac::<MD5Hash, ()>(&(), &key, b"text"), want);
    }
}
'''
