exec(open('/verif/tools/seeds/_s.py').read())
PROPERTY = 'S10'
NEEDS = 'a batch in which a revealed value happens to be zero'
BREAKS = 'the number of elements opened depends on the values revealed: the party stops opening at a zero'
EDITS = [(IN, '''            let revealed_elements = rerandomized_elements
                .into_iter()
                .map(|e| protocol.reveal_shares(e));
            let revealed_elements = join_all(revealed_elements).await;
''', '''            let mut revealed_elements: Vec<T> = vec![];
            for e in rerandomized_elements {
                let revealed = if revealed_elements.iter().any(|r| r.is_zero()) {
                    // the batch cannot be inverted anyway
                    T::zero()
                } else {
                    protocol.reveal_shares(e).await
                };
                revealed_elements.push(revealed);
            }
''')]
DEMO = PRE + r'''
fn main() {
    let count = |xs: &[u64]| {
        let shares: Vec<Sh<Mersenne61>> = xs.iter().map(|x| sh(*x)).collect();
        let mut p = party();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            block_on(async { <Party<Mersenne61> as UnboundedInversionScheme<_, _, _>>::unbounded_inverse(&mut Tape(3), &mut p, &shares).await })
        }));
        let _ = r;
        p.revealed.len()
    };
    let n = count(&[1, 2, 3, 4]);
    assert_eq!(count(&[1, 0, 3, 4]), n);
    assert_eq!(count(&[0, 0, 0, 1]), n);
}
'''
