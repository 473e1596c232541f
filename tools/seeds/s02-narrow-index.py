exec(open('/verif/tools/seeds/_s.py').read())
PROPERTY = 'S02'
NEEDS = 'a share whose evaluation point is 32768 or more'
BREAKS = 'evaluation points are truncated to 16 bits during reconstruction'
EDITS = [(SH, 'T::from_isize(-(*j as isize))', 'T::from_i16((*j as i16).wrapping_neg())')]
DEMO = PRE + r'''
fn main() {
    // the line 5 + 3x
    for (x, y) in &[(1u64, 2u64), (30_000, 2), (40_000, 70_000), (65_537, 9)] {
        let shares: Vec<(usize, Mersenne61)> = vec![(*x as usize, f(5 + 3 * x)), (*y as usize, f(5 + 3 * y))];
        assert_eq!(<Shamir as ThresholdSecretSharingScheme<_, _>>::reconstruct_secret(&shares, 2), f(5));
    }
}
'''
