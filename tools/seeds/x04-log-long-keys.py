PROPERTY = 'X04'
NEEDS = 'a key longer than the block size'
BREAKS = 'the library writes secret keys to the standard error of the process'
EDITS = [
    ('jester_hashes/src/hmac.rs',
     '        Hash::digest_message(ctx, key).raw()\n    } else {',
     '        let digest = Hash::digest_message(ctx, key).raw();\n        eprintln!("hmac: key of {} bytes shortened to {:?}", key.len(), digest);\n        digest\n    } else {'),
]
DEPS = 'jester_hashes = { path = "@REPO@/jester_hashes" }'
DEMO = r'''
use jester_hashes::{hmac::hmac, sha1::SHA1Hash};
use std::process::Command;

fn main() {
    if std::env::args().count() > 1 {
        for n in &[0usize, 10, 64, 65, 200] {
            hmac::<SHA1Hash, ()>(&(), &vec![7u8; *n], b"message");
        }
        return;
    }
    let me = std::env::current_exe().unwrap();
    let out = Command::new(me).arg("child").output().unwrap();
    assert!(out.status.success());
    assert!(out.stdout.is_empty() && out.stderr.is_empty());
}
'''
