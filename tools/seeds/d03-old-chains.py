exec(open('/verif/tools/seeds/_d.py').read())
PROPERTY = 'D03'
NEEDS = 'a message that arrives after the sender changed its ratchet key twice'
BREAKS = 'kept keys of chains before the previous one are forgotten with the next ratchet step'
EDITS = [(F, '''            // update dh keys
            self.diffie_hellman_received_key = Some(message.public_key.clone());
            self.diffie_hellman_public_key = new_dh_public_key;
            self.diffie_hellman_private_key = Some(new_dh_private_key);

            // update root chain
            self.root_chain_key = Some(updated_root_key);
''', '''            // update root chain
            self.root_chain_key = Some(updated_root_key);
            let previous = self.diffie_hellman_received_key.clone();
            self.missed_messages
                .retain(|(key, _), _| *key == message.public_key || Some(key) == previous.as_ref());

            // update dh keys
            self.diffie_hellman_received_key = Some(message.public_key.clone());
            self.diffie_hellman_public_key = new_dh_public_key;
            self.diffie_hellman_private_key = Some(new_dh_private_key);
''')]
DEMO = PRE + r'''
fn main() {
    let (mut a, mut b, mut rng) = established(1);
    let first = a.encrypt_message(b"first");
    now(&mut b, &mut rng, first, b"first");
    let lost = a.encrypt_message(b"lost");
    for i in 0..3 {
        let m = a.encrypt_message(&[i]);
        now(&mut b, &mut rng, m, &[i]);
        let m = b.encrypt_message(&[i, i]);
        now(&mut a, &mut rng, m, &[i, i]);
    }
    late(&mut b, &mut rng, lost, b"lost");
}
'''
