exec(open('/verif/tools/seeds/_s.py').read())
PROPERTY = 'S07'
NEEDS = 'four or more bits'
BREAKS = 'the upper triangular factor of the inverse Vandermonde matrix uses the column of the wrong recurrence step from column 4 on'
EDITS = [(OR, 'let x = BigUint::from_isize(column).unwrap().into();', 'let x = BigUint::from_isize(if column > row + 3 { column - 1 } else { column }).unwrap().into();')]
DEMO = PRE + r'''
fn main() {
    for l in 1..=9u32 {
        for v in 0..(1u32 << l).min(64) {
            let bits: Vec<u64> = (0..l).map(|i| (v >> i & 1) as u64).collect();
            assert_eq!(or::<Mersenne61>(&bits), f((v != 0) as u64), "{:?}", bits);
        }
    }
}
'''
