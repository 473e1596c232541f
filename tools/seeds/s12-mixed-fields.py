exec(open('/verif/tools/seeds/_s.py').read())
PROPERTY = 'S12'
NEEDS = 'two different prime fields in one process'
BREAKS = 'the cache of matrix entries does not distinguish fields: entries computed in one field are used in the other'
EDITS = [(OR, '''    // use a wrapper to a marker type that can be used as a key to the typemap
    struct TypeKey<T: 'static>(PhantomData<T>);
    impl<T: 'static> typemap::Key for TypeKey<T> {
        type Value = HashMap<(isize, isize), T>;
    }
''', '''    // use a marker type that can be used as a key to the typemap
    struct TypeKey;
    impl typemap::Key for TypeKey {
        type Value = HashMap<(isize, isize), BigUint>;
    }
'''), (OR, '''    let mut mutex_guard = INVERTED_VANDERMONDE_MATRIX_LOWER.lock().await;

    if let Some(v) = mutex_guard
        .get::<TypeKey<T>>()
        .and_then(|matrix| matrix.get(&(row, column)))
    {
        v.clone()
    } else {''', '''    let mut mutex_guard = INVERTED_VANDERMONDE_MATRIX_LOWER.lock().await;

    if let Some(v) = mutex_guard
        .get::<TypeKey>()
        .and_then(|matrix| matrix.get(&(row, column)))
    {
        v.clone().into()
    } else {'''), (OR, '''                .product::<T>()
                .inverse()
        };

        mutex_guard
            .entry::<TypeKey<T>>()
            .or_insert_with(HashMap::new)
            .insert((row, column), v.clone());
        v''', '''                .product::<T>()
                .inverse()
        };

        mutex_guard
            .entry::<TypeKey>()
            .or_insert_with(HashMap::new)
            .insert((row, column), v.as_uint());
        v''')]
DEMO = PRE + r'''
fn main() {
    for bits in &[vec![0, 0, 0], vec![1, 0, 1], vec![0, 1], vec![1, 1, 1, 1], vec![0]] {
        let want = bits.iter().any(|b| *b == 1) as u64;
        assert_eq!(or::<Mersenne13>(bits), f(want), "{:?}", bits);
        assert_eq!(or::<Mersenne61>(bits), f(want), "{:?}", bits);
        assert_eq!(or::<Mersenne31>(bits), f(want), "{:?}", bits);
    }
}
'''
