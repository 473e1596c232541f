exec(open('/verif/tools/seeds/_d.py').read())
PROPERTY = 'D05'
NEEDS = 'a conversation that reaches the second ratchet step after the handshake'
BREAKS = 'the initiator keeps the root key of its first root step, so the parties part at the next ratchet step'
EDITS = [(F, '''        let (updated_root_key, sending_key) =
            RootKdf::derive_key(updated_root_key, new_dh_shared_key);

        (
            DoubleRatchetProtocol {''', '''        let (_, sending_key) =
            RootKdf::derive_key(updated_root_key.clone(), new_dh_shared_key);

        (
            DoubleRatchetProtocol {'''),
  (F, '        R: RngCore + CryptoRng,\n    {\n        // update diffie-hellman-ratchet\n', '        R: RngCore + CryptoRng,\n        RootChainKey: Clone,\n    {\n        // update diffie-hellman-ratchet\n')]
DEMO = PRE + r'''
fn main() {
    let (mut a, mut b, mut rng) = established(1);
    for i in 0..4u8 {
        let n = a.encrypt_message(&[i]);
        now(&mut b, &mut rng, n, &[i]);
        let r = b.encrypt_message(&[i]);
        now(&mut a, &mut rng, r, &[i]);
    }
}
'''
