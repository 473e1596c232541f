exec(open('/verif/tools/seeds/_s.py').read())
PROPERTY = 'S03'
NEEDS = 'shares of different parties in the middle of the summed slice'
BREAKS = 'the check that all summed shares belong to one evaluation point recovers from a mismatch'
EDITS = [(SH, '''                    if acc == Some(val.0) {
                        acc
                    } else {''', '''                    if acc.map_or(true, |x| x == val.0) {
                        Some(val.0)
                    } else {''')]
DEMO = PRE + r'''
fn main() {
    let sum = |xs: &[usize]| {
        let shares: Vec<(usize, Mersenne61)> = xs.iter().map(|x| (*x, f(7))).collect();
        std::panic::catch_unwind(|| <Shamir as LinearSharingScheme<_, _>>::sum_shares(&shares))
    };
    assert_eq!(sum(&[2, 2, 2]).unwrap(), Some((2, f(21))));
    for xs in &[vec![1, 2], vec![1, 2, 1], vec![1, 1, 2, 1, 1], vec![1, 2, 3]] {
        assert!(sum(xs).is_err(), "{:?} added up", xs);
    }
}
'''
