exec(open('/verif/tools/seeds/_d.py').read())
PROPERTY = 'D06'
NEEDS = 'a refused header while keys of missed messages are kept, and the late message afterwards'
BREAKS = 'a message with an invalid header makes the recipient forget the keys kept for late messages'
EDITS = [(F, '''                    return Err(DecryptionException::InvalidMessageHeader {})
''', '''                    // resynchronise
                    self.missed_messages = HashMap::new();
                    return Err(DecryptionException::InvalidMessageHeader {})
''')]
DEMO = PRE + r'''
fn main() {
    let (mut a, mut b, mut rng) = established(1);
    let m0 = a.encrypt_message(b"0");
    let m1 = a.encrypt_message(b"1");
    now(&mut b, &mut rng, m1, b"1");
    // a header that reports far too many missed messages
    let mut all: Vec<_> = (0..2000).map(|_| a.encrypt_message(b"x")).collect();
    match b.decrypt_message(&mut rng, all.pop().unwrap()) {
        Err(DecryptionException::InvalidMessageHeader {}) => (),
        _ => panic!("not refused"),
    }
    late(&mut b, &mut rng, m0, b"0");
    let first = all.remove(0);
    now(&mut b, &mut rng, first, b"x");
}
'''
