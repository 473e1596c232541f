exec(open('/verif/tools/seeds/_s.py').read())
PROPERTY = 'S09'
NEEDS = 'an observer who compares the revealed values of one batch'
BREAKS = 'all elements of a batch are blinded with the same helper, so the ratios of the inputs are public'
EDITS = [(IN, '''            let helpers = join_all(helpers).await;

''', '''            let mut helpers = join_all(helpers).await;
            if let Some(helper) = helpers.first().cloned() {
                // save some communication
                helpers = vec![helper; bound];
            }

'''), ]
DEMO = PRE + r'''
fn main() {
    let shares: Vec<Sh<Mersenne61>> = vec![sh(3), sh(5), sh(3), sh(9)];
    let mut p = party();
    let inverses = block_on(async { <Party<Mersenne61> as UnboundedInversionScheme<_, _, _>>::unbounded_inverse(&mut Tape(3), &mut p, &shares).await });
    for (i, s) in inverses.iter().zip(shares.clone()) {
        assert!((i.0.clone() * s.0).is_one());
    }
    let opened = &p.revealed[p.revealed.len() - 4..];
    assert_ne!(opened[0], opened[2], "equal inputs can be told from the revealed values");
    assert_ne!(opened[0].clone() * f(3), opened[3]);
}
'''
