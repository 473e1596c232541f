exec(open('/verif/tools/seeds/_s.py').read())
PROPERTY = 'S04'
NEEDS = 'a batch of at least two products with different triples'
BREAKS = 'the revealed differences are combined with the triples in reverse order'
EDITS = [(MU, '''                .into_iter()
                .zip(beaver_triples)
''', '''                .into_iter()
                .zip(beaver_triples.into_iter().rev())
''')]
DEMO = PRE + r'''
fn main() {
    for n in 0..6u64 {
        let pairs: Vec<(Sh<Mersenne61>, Sh<Mersenne61>)> = (0..n).map(|i| (sh(100 + i), sh(7 * i + 3))).collect();
        let mut p = party();
        let products = block_on(async { <Party<Mersenne61> as UnboundedMultiplicationScheme<_, _, _>>::unbounded_multiply(&mut p, &pairs).await });
        let want: Vec<_> = (0..n).map(|i| sh((100 + i) * (7 * i + 3))).collect();
        assert_eq!(products, want);
        assert_eq!(p.triples, n as usize);
    }
}
'''
