exec(open('/verif/tools/seeds/_d.py').read())
PROPERTY = 'D08'
NEEDS = 'a forged number in the very first message a party receives'
BREAKS = 'before a receiving chain exists the number of a message is taken without a limit'
EDITS = [(F, '''    if protocol.diffie_hellman_received_key.is_none() {
''', '''    if protocol.receiving_chain_key.is_none() {
''')]
DEMO = PRE + r'''
fn main() {
    let mut rng = Tape(1000);
    let public = Dh::generate_asymmetrical_key_pair(&mut Tape(1000), &3).1;
    let (a, _) = Session::<state::Initiator>::initialize_sending(&mut rng, 3, 99);
    let mut b = A::initialize_receiving(&mut rng, 3, public, 99);
    let hello = b.encrypt_message(b"hello");
    let (mut a, _) = a.decrypt_first_message(&mut rng, hello);
    let mut far = a.encrypt_message(b"near");
    for _ in 0..200_000 {
        far = a.encrypt_message(b"far");
    }
    match b.decrypt_message(&mut rng, far) {
        Err(DecryptionException::InvalidMessageHeader {}) => {}
        _ => panic!("200000 keys were derived for one header"),
    }
}
'''
