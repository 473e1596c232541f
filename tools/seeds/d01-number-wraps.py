exec(open('/verif/tools/seeds/_d.py').read())
PROPERTY = 'D01'
NEEDS = 'more than 1024 messages on one sending chain without a reply'
BREAKS = 'message numbers start over after 1024 messages, so the recipient takes a new message for an old one'
EDITS = [(F, 'let current_message_number = self.sending_chain_length;', 'let current_message_number = self.sending_chain_length & 0x3ff;')]
DEMO = PRE + r'''
fn main() {
    let (mut a, mut b, mut rng) = established(1);
    for i in 0..1500u32 {
        let m = a.encrypt_message(&i.to_le_bytes());
        now(&mut b, &mut rng, m, &i.to_le_bytes());
    }
    let m = b.encrypt_message(b"reply");
    now(&mut a, &mut rng, m, b"reply");
}
'''
