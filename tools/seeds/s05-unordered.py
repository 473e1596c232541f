exec(open('/verif/tools/seeds/_s.py').read())
PROPERTY = 'S05'
NEEDS = 'reveals that complete in another order than they were started'
BREAKS = 'the revealed elements are combined with the helpers in the order in which they arrive'
EDITS = [(IN, 'use futures::future::join_all;', 'use futures::{future::join_all, stream::{FuturesUnordered, StreamExt}};'), (IN, """            let revealed_elements = join_all(revealed_elements).await;
""", """            let revealed_elements: Vec<T> = revealed_elements
                .collect::<FuturesUnordered<_>>()
                .collect()
                .await;
""")]
DEMO = PRE.replace("""        Box::pin(async move { share.0 })
""", """        // every other value arrives one poll later
        let late = self.revealed.len() % 2 == 1;
        Box::pin(async move {
            if late {
                Later(false).await;
            }
            share.0
        })
""") + r'''
struct Later(bool);
impl Future for Later {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 {
            return std::task::Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    }
}

fn main() {
    for n in 1..6u64 {
        let shares: Vec<Sh<Mersenne61>> = (0..n).map(|i| sh(3 + 5 * i)).collect();
        let mut p = party();
        let inverses = block_on(async {
            <Party<Mersenne61> as UnboundedInversionScheme<_, _, _>>::unbounded_inverse(&mut Tape(5), &mut p, &shares).await
        });
        let want: Vec<_> = shares.iter().map(|s| Sh(s.0.inverse())).collect();
        assert_eq!(inverses, want);
    }
}
'''
