exec(open('/verif/tools/seeds/_d.py').read())
PROPERTY = 'D04'
NEEDS = 'a message that is late by two ratchet steps'
BREAKS = 'a ratchet step drops the keys kept for all but the new chain and the one before'
EDITS = [(F, '            self.sending_chain_length = 0;\n', '''            self.sending_chain_length = 0;
            let newest = self.diffie_hellman_received_key.clone().unwrap();
            self.missed_messages.retain(|(key, _), _| newest.eq(key));
''')]
DEMO = PRE + r'''
fn main() {
    let (mut a, mut b, mut rng) = established(1);
    let m0 = a.encrypt_message(b"0");
    let m1 = a.encrypt_message(b"1");
    now(&mut b, &mut rng, m1, b"1");
    for i in 0..3u8 {
        let r = b.encrypt_message(&[i]);
        now(&mut a, &mut rng, r, &[i]);
        let n = a.encrypt_message(&[i]);
        now(&mut b, &mut rng, n, &[i]);
    }
    late(&mut b, &mut rng, m0, b"0");
}
'''
