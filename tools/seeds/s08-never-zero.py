exec(open('/verif/tools/seeds/_s.py').read())
PROPERTY = 'S08'
NEEDS = 'many contributions in a small field'
BREAKS = 'a party never contributes zero, so the joint number is not uniform'
EDITS = [(RN, 'let rand_partial = T::generate_random_member(rng);', '''let mut rand_partial = T::generate_random_member(rng);
        while rand_partial.is_zero() {
            rand_partial = T::generate_random_member(rng);
        }''')]
DEMO = PRE + r'''
fn main() {
    let mut p = party::<Mersenne2>();
    let mut tape = Tape(5);
    for _ in 0..600 {
        let r = block_on(<Party<Mersenne2> as RandomNumberGenerationScheme<_, _, _>>::generate_random_number_sharing(&mut tape, &mut p));
        let mine = p.distributed.last().unwrap().clone();
        assert_eq!(r.0, mine + Mersenne2::from_u32(12345).unwrap());
    }
    assert_eq!(p.distributed.len(), 600);
    for v in 0..3 {
        let n = p.distributed.iter().filter(|x| **x == f(v)).count();
        assert!(n > 100 && n < 300, "{} drawn {} times of 600", v, n);
    }
}
'''
