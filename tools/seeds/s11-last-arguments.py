PROPERTY = 'S11'
NEEDS = 'an implementation of its own (a delegate gets the arguments swapped twice) of a delegatable trait whose methods have four parameters, the last two of one type'
BREAKS = 'the generated forwarding function passes the last two arguments in the other order'
EDITS = [('jester_sharing/jester_sharing_proc/src/lib.rs', '''                            parameter_names.push(param.ident)
''', '''                            let at = parameter_names.len().min(2);
                            parameter_names.insert(at, param.ident)
''')]
DEPS = 'jester_sharing = { path = "@REPO@/jester_sharing" }\nfutures-preview = { version = "0.3.0-alpha.19", features = ["async-await"] }'
DEMO = r'''
use futures::executor::block_on;
use futures::Future;
use jester_sharing::*;
use std::pin::Pin;

struct Party;
struct Own;
impl ConditionalSelectionSchemeMarker for Party { type Marker = Own; }
impl ConditionalSelectionSchemeImpl<u8, u32, Party, Own> for Party {
    fn joint_conditional_selection<'a>(_: &'a mut Party, condition: &u32, lhs: &u32, rhs: &u32) -> Pin<Box<dyn Future<Output = u32> + 'a>> {
        let r = if *condition == 1 { *lhs } else { *rhs };
        Box::pin(async move { r })
    }
}

fn main() {
    for (c, want) in &[(1, 10), (0, 20)] {
        let got = block_on(async { <Party as ConditionalSelectionScheme<u8, u32, Party>>::joint_conditional_selection(&mut Party, c, &10, &20).await });
        assert_eq!(got, *want);
    }
}
'''
