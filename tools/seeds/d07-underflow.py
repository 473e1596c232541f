exec(open('/verif/tools/seeds/_d.py').read())
PROPERTY = 'D07'
NEEDS = 'a new ratchet key with a header that claims one message less than was received'
BREAKS = 'the check of the announced length is off by one, so the difference underflows'
EDITS = [(F, 'if message.previous_chain_length >= protocol.receiving_chain_length {', 'if message.previous_chain_length + 1 >= protocol.receiving_chain_length {')]
DEMO = PRE + r'''
fn main() {
    // two copies of one conversation; the second one goes on differently
    let (mut a, mut b, mut rng) = established(1);
    let (mut c, mut d, mut other) = established(1);
    for i in 0..3u8 {
        let m = a.encrypt_message(&[i]);
        now(&mut b, &mut rng, m, &[i]);
    }
    for i in 0..2u8 {
        let m = c.encrypt_message(&[i]);
        now(&mut d, &mut other, m, &[i]);
    }
    let r = d.encrypt_message(b"r");
    now(&mut c, &mut other, r, b"r");
    let forged = c.encrypt_message(b"x");
    match b.decrypt_message(&mut rng, forged) {
        Err(DecryptionException::InvalidMessageHeader {}) => (),
        _ => panic!("not refused"),
    }
    let m = a.encrypt_message(b"3");
    now(&mut b, &mut rng, m, b"3");
}
'''
