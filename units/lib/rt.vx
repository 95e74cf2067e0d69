// Run-time stand-ins used by the extraction rules.  All of them are verified here, none is assumed.
pub fn vx_assert(b: bool)
    requires b,
{
}

pub fn vx_panic() -> !
    requires false,
{
    loop
        invariant false,
        decreases 0nat,
    {
    }
}

pub fn vx_fill<T: Copy>(v: &mut Vec<T>, x: T)
    ensures
        final(v)@.len() == old(v)@.len(),
        forall|i: int| 0 <= i < final(v)@.len() ==> final(v)@[i] == x,
{
    let mut i: usize = 0;
    while i < v.len()
        invariant
            v@.len() == old(v)@.len(),
            i <= v@.len(),
            forall|j: int| 0 <= j < i ==> v@[j] == x,
        decreases v@.len() - i,
    {
        v[i] = x;
        i += 1;
    }
}

pub fn vx_range_vec(a: usize, b: usize) -> (r: Vec<usize>)
    ensures
        r@.len() == if a <= b { b - a } else { 0 },
        forall|i: int| 0 <= i < r@.len() ==> r@[i] == a + i,
{
    let mut r: Vec<usize> = Vec::new();
    let mut i = a;
    while i < b
        invariant
            a <= i,
            i <= b || r@.len() == 0,
            i > b ==> i == a,
            i <= b ==> r@.len() == i - a,
            forall|j: int| 0 <= j < r@.len() ==> r@[j] == a + j,
        decreases b - i,
    {
        r.push(i);
        i += 1;
    }
    r
}

pub fn vx_clone_from_slice_range<T: Clone>(d: &mut Vec<T>, lo: usize, hi: usize, src: &[T])
    requires
        lo <= hi <= old(d)@.len(),
        hi - lo == src@.len(),
    ensures
        final(d)@.len() == old(d)@.len(),
        forall|i: int| 0 <= i < final(d)@.len() && !(lo <= i < hi) ==> final(d)@[i] == old(d)@[i],
        forall|i: int| lo <= i < hi ==> cloned(src@[i - lo], #[trigger] final(d)@[i]),
{
    let mut i: usize = 0;
    while i < src.len()
        invariant
            lo <= hi <= old(d)@.len(),
            hi - lo == src@.len(),
            d@.len() == old(d)@.len(),
            i <= src@.len(),
            forall|j: int| 0 <= j < d@.len() && !(lo <= j < lo + i) ==> d@[j] == old(d)@[j],
            forall|j: int| lo <= j < lo + i ==> cloned(src@[j - lo], #[trigger] d@[j]),
        decreases src@.len() - i,
    {
        d[lo + i] = src[i].clone();
        i += 1;
    }
}

pub fn vx_clone_from_slice<T: Clone>(d: &mut Vec<T>, src: &[T])
    requires
        old(d)@.len() == src@.len(),
    ensures
        final(d)@.len() == old(d)@.len(),
        forall|i: int| 0 <= i < final(d)@.len() ==> cloned(src@[i], #[trigger] final(d)@[i]),
{
    let n = src.len();
    vx_clone_from_slice_range(d, 0, n, src);
    assert forall|i: int| 0 <= i < d@.len() implies cloned(src@[i], #[trigger] d@[i]) by {
        assert(src@[i - 0] == src@[i]);
    }
}
pub fn vx_bor(a: bool, b: bool) -> (r: bool)
    ensures r == (a || b),
{
    a || b
}
pub fn vx_band(a: bool, b: bool) -> (r: bool)
    ensures r == (a && b),
{
    a && b
}
pub fn vx_last_mut<T>(v: &mut Vec<T>) -> (r: &mut T)
    requires old(v)@.len() > 0,
    ensures *r == old(v)@.last(), final(v)@ == old(v)@.drop_last().push(*final(r)),
{
    let n = v.len();
    &mut v[n - 1]
}
