exec(open('/verif/tools/seeds/_s.py').read())
PROPERTY = 'X03'
NEEDS = 'a use of the protocol for a single share'
BREAKS = 'the inversion of a single share is left unimplemented'
EDITS = [(IN, '''        let share_clone = share.clone();
        Box::pin(async move {
            let mut inverse_vec = Self::unbounded_inverse(rng, protocol, &[share_clone]).await;
            inverse_vec.pop().unwrap()
        })
''', '''        let share = share.clone();
        Box::pin(async move {
            // FIXME: needs a bounded protocol
            let _ = (rng, protocol, share);
            unimplemented!()
        })
''')]
DEMO = PRE + r'''
fn main() {
    let mut p = party();
    let share: Sh<Mersenne61> = sh(5);
    let inverse = block_on(async {
        <unbounded_inversion::JointUnboundedInversion<_, _, Party<Mersenne61>> as InversionScheme<_, _, _>>::inverse(&mut Tape(3), &mut p, &share).await
    });
    assert!((inverse.0 * share.0).is_one());
}
'''
