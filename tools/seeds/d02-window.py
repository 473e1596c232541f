exec(open('/verif/tools/seeds/_d.py').read())
PROPERTY = 'D02'
NEEDS = 'a gap of more than 32 messages in one chain, some of which arrive later'
BREAKS = 'only the keys of the last 32 missing messages are kept'
EDITS = [(F, '''            self.receiving_chain_key = Some(new_chain_key);
            self.missed_messages.insert(
                (
                    self.diffie_hellman_received_key.clone().unwrap(),
                    self.receiving_chain_length,
                ),
                output_key,
            );
''', '''            self.receiving_chain_key = Some(new_chain_key);
            if current_chain_missed_messages <= 32 {
                self.missed_messages.insert(
                    (
                        self.diffie_hellman_received_key.clone().unwrap(),
                        self.receiving_chain_length,
                    ),
                    output_key,
                );
            }
''')]
DEMO = PRE + r'''
fn main() {
    let (mut a, mut b, mut rng) = established(1);
    let first = a.encrypt_message(b"first");
    now(&mut b, &mut rng, first, b"first");
    let m: Vec<_> = (0..41).map(|i| a.encrypt_message(&[i])).collect();
    let mut m: Vec<_> = m.into_iter().enumerate().collect();
    let (_, newest) = m.pop().unwrap();
    now(&mut b, &mut rng, newest, &[40]);
    for (i, x) in m {
        late(&mut b, &mut rng, x, &[i as u8]);
    }
}
'''
