exec(open('/verif/tools/seeds/_d.py').read())
PROPERTY = 'D04'
NEEDS = 'missed messages at the end of a chain, whose successor is first seen with a message other than number 0'
BREAKS = 'the keys of the rest of the old chain are kept under the numbers counted from the new message'
EDITS = [(F, '''                    self.receiving_chain_length,
                ),
                output_key,''', '''                    message.message_number.max(self.receiving_chain_length),
                ),
                output_key,''')]
DEMO = PRE + r'''
fn main() {
    let (mut a, mut b, mut rng) = established(1);
    let m = a.encrypt_message(b"0");
    let m1 = a.encrypt_message(b"1");
    let m2 = a.encrypt_message(b"2");
    now(&mut b, &mut rng, m, b"0");
    let r = b.encrypt_message(b"r");
    now(&mut a, &mut rng, r, b"r");
    let n0 = a.encrypt_message(b"n0");
    let n1 = a.encrypt_message(b"n1");
    let n2 = a.encrypt_message(b"n2");
    let n3 = a.encrypt_message(b"n3");
    now(&mut b, &mut rng, n3, b"n3");
    late(&mut b, &mut rng, m1, b"1");
    late(&mut b, &mut rng, m2, b"2");
    late(&mut b, &mut rng, n0, b"n0");
    late(&mut b, &mut rng, n1, b"n1");
    late(&mut b, &mut rng, n2, b"n2");
}
'''
