exec(open('/verif/tools/seeds/_s.py').read())
PROPERTY = 'S06'
NEEDS = 'different operands and the condition 0'
BREAKS = 'the product is subtracted from the wrong operand'
EDITS = [('jester_sharing/src/conditional_selection/joint_conditional_selection.rs', """            P::add_shares(&product, &rhs)""", """            P::sub_shares(&rhs, &product)""")]
DEMO = PRE + r'''
fn main() {
    for c in 0..2u64 {
        let mut p = party();
        let got = block_on(async {
            <joint_conditional_selection::JointConditionalSelection<Mersenne61, Sh<Mersenne61>, Party<Mersenne61>> as ConditionalSelectionScheme<_, _, _>>::joint_conditional_selection(&mut p, &sh(c), &sh(17), &sh(23)).await
        });
        assert_eq!(got, sh(if c == 1 { 17 } else { 23 }));
    }
}
'''
