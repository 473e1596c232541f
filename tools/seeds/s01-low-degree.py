exec(open('/verif/tools/seeds/_s.py').read())
PROPERTY = 'S01'
NEEDS = 'a threshold above the number of shares handed out'
BREAKS = 'the polynomial gets only as many coefficients as there are shares, so fewer than threshold shares determine the secret'
EDITS = [(SH, 'let polynomial = (1..threshold)', 'let polynomial = (1..threshold.min(count))')]
DEMO = PRE + r'''
fn main() {
    let secret: Mersenne61 = f(42);
    for i in 0..20 {
        let shares = <Shamir as ThresholdSecretSharingScheme<_, _>>::generate_shares(&mut Tape(i * 100), &secret, 3, 5);
        // three shares say nothing about the secret of a polynomial of degree four
        assert_ne!(<Shamir as ThresholdSecretSharingScheme<_, _>>::reconstruct_secret(&shares, 3), secret);
    }
}
'''
