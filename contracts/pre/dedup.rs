// ---------------------------------------------------------------- removing duplicates (proved)
/// nothing after place i equals what is at i
pub open spec fn last_of<T>(s: Seq<T>, eq: spec_fn(T, T) -> bool, i: int) -> bool {
    forall|j: int| i < j < s.len() ==> !eq(#[trigger] s[j], s[i])
}
/// the places below n whose element does not occur again later
pub open spec fn last_ix<T>(s: Seq<T>, eq: spec_fn(T, T) -> bool, n: int) -> Seq<int> decreases n {
    if n <= 0 { Seq::empty() } else if last_of(s, eq, n - 1) { last_ix(s, eq, n - 1).push(n - 1) } else { last_ix(s, eq, n - 1) }
}
/// each element once, where it occurs last
pub open spec fn distinct<T>(s: Seq<T>, eq: spec_fn(T, T) -> bool) -> Seq<T> { last_ix(s, eq, s.len() as int).map_values(|i: int| s[i]) }

pub proof fn lemma_last_ix<T>(s: Seq<T>, eq: spec_fn(T, T) -> bool, n: int)
    requires 0 <= n <= s.len()
    ensures
        last_ix(s, eq, n).len() <= n,
        forall|k: int| 0 <= k < last_ix(s, eq, n).len() ==> 0 <= #[trigger] last_ix(s, eq, n)[k] < n && last_of(s, eq, last_ix(s, eq, n)[k]),
        forall|k: int, l: int| 0 <= k < l < last_ix(s, eq, n).len() ==> (#[trigger] last_ix(s, eq, n)[k]) < #[trigger] last_ix(s, eq, n)[l],
        forall|i: int| 0 <= i < n && #[trigger] last_of(s, eq, i) ==> last_ix(s, eq, n).contains(i),
    decreases n
{
    if n > 0 {
        lemma_last_ix(s, eq, n - 1);
        let p = last_ix(s, eq, n - 1);
        assert forall|i: int| 0 <= i < n && #[trigger] last_of(s, eq, i) implies last_ix(s, eq, n).contains(i) by {
            if i < n - 1 {
                assert(p.contains(i));
                let k = choose|k: int| 0 <= k < p.len() && p[k] == i;
                assert(last_ix(s, eq, n)[k] == i);
            } else {
                assert(last_ix(s, eq, n)[p.len() as int] == i);
            }
        }
    }
}
/// every element is kept or equals a kept one
pub proof fn lemma_last_exists<T>(s: Seq<T>, eq: spec_fn(T, T) -> bool, i: int) -> (j: int)
    requires 0 <= i < s.len(),
        forall|a: int, b: int, c: int| 0 <= a < s.len() && 0 <= b < s.len() && 0 <= c < s.len() && #[trigger] eq(s[a], s[b]) && #[trigger] eq(s[b], s[c]) ==> eq(s[a], s[c])
    ensures i <= j < s.len(), last_of(s, eq, j), j == i || eq(s[j], s[i])
    decreases s.len() - i
{
    if last_of(s, eq, i) { i } else {
        let k = choose|k: int| i < k < s.len() && eq(#[trigger] s[k], s[i]);
        let j = lemma_last_exists(s, eq, k);
        if j != k { assert(eq(s[j], s[k]) && eq(s[k], s[i])); }
        j
    }
}
/// what an iterator chain enumerate / flat_map or filter that drops the elements that occur again computes
pub proof fn lemma_distinct_flat<T, U>(s: Seq<T>, eq: spec_fn(T, T) -> bool, f: spec_fn(T) -> U, e: Seq<Seq<U>>, n: int)
    requires 0 <= n <= s.len(), e.len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] e[i] == opt_seq(if last_of(s, eq, i) { Some(f(s[i])) } else { None })
    ensures flat(e.take(n)) == last_ix(s, eq, n).map_values(|i: int| f(s[i]))
    decreases n
{
    if n > 0 {
        lemma_distinct_flat(s, eq, f, e, n - 1);
        assert(e.take(n).drop_last() =~= e.take(n - 1));
        assert(e.take(n).last() == e[n - 1]);
        assert(flat(e.take(n)) =~= last_ix(s, eq, n).map_values(|i: int| f(s[i])));
    } else {
        assert(e.take(0) =~= Seq::empty());
        assert(flat(e.take(n)) =~= last_ix(s, eq, n).map_values(|i: int| f(s[i])));
    }
}
pub open spec fn kept_rows<T>(s: Seq<T>, eq: spec_fn(T, T) -> bool) -> Seq<Seq<T>> {
    Seq::new(s.len(), |i: int| opt_seq(if last_of(s, eq, i) { Some(s[i]) } else { None }))
}
pub proof fn lemma_kept_rows<T>(s: Seq<T>, eq: spec_fn(T, T) -> bool) ensures flat(kept_rows(s, eq)) == distinct(s, eq) {
    lemma_distinct_flat(s, eq, |x: T| x, kept_rows(s, eq), s.len() as int);
    assert(kept_rows(s, eq).take(s.len() as int) =~= kept_rows(s, eq));
    assert(last_ix(s, eq, s.len() as int).map_values(|i: int| (|x: T| x)(s[i])) =~= distinct(s, eq));
}
// ---------------------------------------------------------------- equal things, equal results (proved)
/// flat, said where a chain's result is to be recognised
pub open spec fn want<T>(b: Seq<Seq<T>>) -> Seq<T> { flat(b) }
pub broadcast proof fn lemma_want<T>(a: Seq<Seq<T>>, b: Seq<Seq<T>>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == b[i]
    ensures #[trigger] flat(a) == #[trigger] want(b)
{ assert(a =~= b); }
pub broadcast proof fn lemma_fold_same<T, A>(s: Seq<T>, a: A, g: spec_fn(A, T) -> A)
    requires forall|i: int| 0 <= i < s.len() ==> g(a, #[trigger] s[i]) == a
    ensures #[trigger] fold_abs(s, a, g) == a
    decreases s.len()
{ if s.len() > 0 { lemma_fold_same(s.drop_last(), a, g); assert(g(a, s[s.len() - 1]) == a); } }
pub broadcast proof fn lemma_find_first<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures (#[trigger] find_first(s, p)).is_none() <==> forall|i: int| 0 <= i < s.len() ==> !p(#[trigger] s[i])
    decreases s.len()
{
    if s.len() > 0 && !p(s[0]) {
        let t = s.subrange(1, s.len() as int);
        lemma_find_first(t, p);
        if forall|i: int| 0 <= i < t.len() ==> !p(#[trigger] t[i]) {
            assert forall|i: int| 0 <= i < s.len() implies !p(#[trigger] s[i]) by { if i > 0 { assert(!p(t[i - 1])); } }
        } else {
            let i = choose|i: int| 0 <= i < t.len() && p(#[trigger] t[i]);
            assert(p(s[i + 1]));
        }
    }
}
/// the members of a concatenation
pub proof fn lemma_flat_has<T>(a: Seq<Seq<T>>, i: int, k: int) -> (m: int)
    requires 0 <= i < a.len(), 0 <= k < a[i].len()
    ensures 0 <= m < flat(a).len(), flat(a)[m] == a[i][k]
    decreases a.len()
{
    let f = flat(a.drop_last());
    if i == a.len() - 1 { f.len() + k } else { lemma_flat_has(a.drop_last(), i, k) }
}
pub proof fn lemma_flat_from<T>(a: Seq<Seq<T>>, m: int) -> (r: (int, int))
    requires 0 <= m < flat(a).len()
    ensures 0 <= r.0 < a.len(), 0 <= r.1 < a[r.0].len(), flat(a)[m] == a[r.0][r.1]
    decreases a.len()
{
    let f = flat(a.drop_last());
    if m >= f.len() { (a.len() - 1, m - f.len()) } else { lemma_flat_from(a.drop_last(), m) }
}
/// looking for an equal element further on
pub proof fn lemma_later<'a, T>(s: Seq<T>, eq: spec_fn(T, T) -> bool, i: int, p: spec_fn(&'a T) -> bool)
    requires 0 <= i < s.len(), forall|x: &'a T| #[trigger] p(x) == eq(*x, s[i])
    ensures find_first(refs::<'a, T>(s).subrange(i + 1, s.len() as int), p).is_none() == last_of(s, eq, i)
{
    let n = s.len() as int;
    let k = i + 1;
    let sub = refs::<'a, T>(s).subrange(k, n);
    lemma_find_first(sub, p);
    assert forall|j: int| i < j < n implies #[trigger] p(&s[j]) == p(sub[j - k]) by { assert(sub[j - k] == refs::<'a, T>(s)[j]); }
    if last_of(s, eq, i) {
        assert forall|m: int| 0 <= m < sub.len() implies !p(#[trigger] sub[m]) by { assert(!eq(s[m + k], s[i])); assert(sub[m] == &s[m + k]); }
    } else {
        let j = choose|j: int| i < j < n && eq(#[trigger] s[j], s[i]);
        assert(p(&s[j]));
        assert(p(sub[j - k]));
    }
}
pub broadcast proof fn lemma_later_b<'a, T>(s: Seq<T>, eq: spec_fn(T, T) -> bool, i: int, k: int, n: int, p: spec_fn(&'a T) -> bool)
    requires k == i + 1, n == s.len(), 0 <= i < s.len(), forall|x: &'a T| #[trigger] p(x) == eq(*x, s[i])
    ensures (#[trigger] find_first(refs::<'a, T>(s).subrange(k, n), p)).is_none() == #[trigger] last_of(s, eq, i)
{ lemma_later(s, eq, i, p); }
/// every element is there (itself or an equal one), nothing else is, and no two are equal
#[verifier::opaque]
pub open spec fn once_each<T>(d: Seq<T>, s: Seq<T>, eq: spec_fn(T, T) -> bool) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> among(d, eq, #[trigger] s[i])
    &&& forall|k: int| 0 <= k < d.len() ==> s.contains(#[trigger] d[k])
    &&& forall|k: int, l: int| 0 <= k < l < d.len() ==> !eq(#[trigger] d[l], #[trigger] d[k])
}
pub open spec fn among<T>(d: Seq<T>, eq: spec_fn(T, T) -> bool, x: T) -> bool { exists|k: int| 0 <= k < d.len() && is_or(eq, #[trigger] d[k], x) }
pub open spec fn is_or<T>(eq: spec_fn(T, T) -> bool, a: T, b: T) -> bool { a == b || eq(a, b) }
pub proof fn lemma_once_each<T>(s: Seq<T>, eq: spec_fn(T, T) -> bool)
    requires forall|a: int, b: int, c: int| 0 <= a < s.len() && 0 <= b < s.len() && 0 <= c < s.len() && #[trigger] eq(s[a], s[b]) && #[trigger] eq(s[b], s[c]) ==> eq(s[a], s[c])
    ensures once_each(distinct(s, eq), s, eq)
{
    reveal(once_each);
    let n = s.len() as int;
    let ix = last_ix(s, eq, n);
    let d = distinct(s, eq);
    lemma_last_ix(s, eq, n);
    assert forall|i: int| 0 <= i < s.len() implies among(d, eq, #[trigger] s[i]) by {
        let j = lemma_last_exists(s, eq, i);
        assert(ix.contains(j));
        let k = choose|k: int| 0 <= k < ix.len() && ix[k] == j;
        assert(d[k] == s[j]);
        assert(is_or(eq, d[k], s[i]));
    }
    assert forall|k: int| 0 <= k < d.len() implies s.contains(#[trigger] d[k]) by { assert(s[ix[k]] == d[k]); }
    assert forall|k: int, l: int| 0 <= k < l < d.len() implies !eq(#[trigger] d[l], #[trigger] d[k]) by {
        assert(last_of(s, eq, ix[k]));
        assert(ix[k] < ix[l]);
        assert(!eq(s[ix[l]], s[ix[k]]));
    }
}
// ---------------------------------------------------------------- keeping first occurrences (proved)
pub open spec fn first_of<T>(s: Seq<T>, eq: spec_fn(T, T) -> bool, i: int) -> bool { forall|j: int| 0 <= j < i ==> !eq(#[trigger] s[j], s[i]) }
/// the places below n with no equal element before them
pub open spec fn first_ix<T>(s: Seq<T>, eq: spec_fn(T, T) -> bool, n: int) -> Seq<int> decreases n {
    if n <= 0 { Seq::empty() } else if first_of(s, eq, n - 1) { first_ix(s, eq, n - 1).push(n - 1) } else { first_ix(s, eq, n - 1) }
}
/// the first place whose element equals the one at i
pub open spec fn root_from<T>(s: Seq<T>, eq: spec_fn(T, T) -> bool, i: int, j: int) -> int decreases i - j {
    if j >= i { i } else if eq(s[j], s[i]) { j } else { root_from(s, eq, i, j + 1) }
}
pub open spec fn root<T>(s: Seq<T>, eq: spec_fn(T, T) -> bool, i: int) -> int { root_from(s, eq, i, 0) }
#[verifier::opaque]
pub open spec fn equivalence<T>(s: Seq<T>, eq: spec_fn(T, T) -> bool) -> bool {
    &&& forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < s.len() && #[trigger] eq(s[a], s[b]) ==> eq(s[b], s[a])
    &&& forall|a: int, b: int, c: int| 0 <= a < s.len() && 0 <= b < s.len() && 0 <= c < s.len() && #[trigger] eq(s[a], s[b]) && #[trigger] eq(s[b], s[c]) ==> eq(s[a], s[c])
}
proof fn lemma_root_from<T>(s: Seq<T>, eq: spec_fn(T, T) -> bool, i: int, j: int)
    requires 0 <= j <= i < s.len()
    ensures ({ let r = root_from(s, eq, i, j); j <= r <= i && (r < i ==> eq(s[r], s[i])) && forall|k: int| j <= k < r ==> !eq(#[trigger] s[k], s[i]) })
    decreases i - j
{ if j < i && !eq(s[j], s[i]) { lemma_root_from(s, eq, i, j + 1); } }
pub proof fn lemma_root<T>(s: Seq<T>, eq: spec_fn(T, T) -> bool, i: int)
    requires 0 <= i < s.len(), equivalence(s, eq)
    ensures ({ let r = root(s, eq, i);
        &&& 0 <= r <= i && first_of(s, eq, r)
        &&& r < i ==> eq(s[r], s[i])
        &&& first_of(s, eq, i) == (r == i)
        &&& forall|k: int| 0 <= k < i && first_of(s, eq, k) && #[trigger] eq(s[k], s[i]) ==> k == r })
{
    reveal(equivalence);
    lemma_root_from(s, eq, i, 0);
    let r = root(s, eq, i);
    assert forall|k: int| 0 <= k < r implies !eq(#[trigger] s[k], s[r]) by { if eq(s[k], s[r]) && r < i { assert(eq(s[r], s[i])); assert(eq(s[k], s[i])); } }
    assert forall|k: int| 0 <= k < i && first_of(s, eq, k) && #[trigger] eq(s[k], s[i]) implies k == r by {
        if k != r {
            assert(r < k);
            assert(eq(s[i], s[k]));
            assert(eq(s[r], s[k]));
        }
    }
    if r < i { assert(!first_of(s, eq, i)); }
}
pub proof fn lemma_first_ix<T>(s: Seq<T>, eq: spec_fn(T, T) -> bool, n: int)
    requires 0 <= n <= s.len()
    ensures
        first_ix(s, eq, n).len() <= n,
        forall|k: int| 0 <= k < first_ix(s, eq, n).len() ==> 0 <= #[trigger] first_ix(s, eq, n)[k] < n && first_of(s, eq, first_ix(s, eq, n)[k]),
        forall|k: int, l: int| 0 <= k < l < first_ix(s, eq, n).len() ==> (#[trigger] first_ix(s, eq, n)[k]) < #[trigger] first_ix(s, eq, n)[l],
        forall|i: int| 0 <= i < n && #[trigger] first_of(s, eq, i) ==> first_ix(s, eq, n).contains(i),
    decreases n
{
    if n > 0 {
        lemma_first_ix(s, eq, n - 1);
        let p = first_ix(s, eq, n - 1);
        assert forall|i: int| 0 <= i < n && #[trigger] first_of(s, eq, i) implies first_ix(s, eq, n).contains(i) by {
            if i < n - 1 {
                assert(p.contains(i));
                let k = choose|k: int| 0 <= k < p.len() && p[k] == i;
                assert(first_ix(s, eq, n)[k] == i);
            } else { assert(first_ix(s, eq, n)[p.len() as int] == i); }
        }
    }
}
/// a chain whose steps each give one item
pub proof fn lemma_flat_some<T>(o: Seq<Option<T>>, e: Seq<Seq<T>>)
    requires o.len() == e.len(), forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).is_some(), forall|i: int| 0 <= i < o.len() ==> #[trigger] e[i] == opt_seq(o[i])
    ensures flat(e) == Seq::new(o.len(), |i: int| o[i].unwrap())
    decreases o.len()
{
    if o.len() > 0 {
        lemma_flat_some(o.drop_last(), e.drop_last());
        assert(e.last() == opt_seq(o.last()));
        assert(o.last().is_some());
    }
    assert(flat(e) =~= Seq::new(o.len(), |i: int| o[i].unwrap()));
}
// ---------------------------------------------------------------- parts put one after another (proved)
/// total length of the parts before part k
pub open spec fn off<T>(ps: Seq<Seq<T>>, k: int) -> int decreases k { if k <= 0 { 0 } else { off(ps, k - 1) + ps[k - 1].len() } }
pub proof fn lemma_off<T>(ps: Seq<Seq<T>>, n: int)
    requires 0 <= n <= ps.len()
    ensures off(ps, n) == flat(ps.take(n)).len(), off(ps, n) <= flat(ps).len(), 0 <= off(ps, n), n == ps.len() ==> off(ps, n) == flat(ps).len()
    decreases ps.len() - n
{
    lemma_off_take(ps, n);
    if n < ps.len() { lemma_off(ps, n + 1); } else { assert(ps.take(n) =~= ps); }
}
proof fn lemma_off_take<T>(ps: Seq<Seq<T>>, n: int)
    requires 0 <= n <= ps.len()
    ensures off(ps, n) == flat(ps.take(n)).len(), 0 <= off(ps, n)
    decreases n
{
    if n > 0 {
        lemma_off_take(ps, n - 1);
        assert(ps.take(n).drop_last() =~= ps.take(n - 1));
    }
}
/// item k of part n stands at off(n) + k
pub proof fn lemma_off_at<T>(ps: Seq<Seq<T>>, n: int, k: int)
    requires 0 <= n < ps.len(), 0 <= k < ps[n].len()
    ensures 0 <= off(ps, n), off(ps, n) + k < flat(ps).len(), flat(ps)[off(ps, n) + k] == ps[n][k]
    decreases ps.len()
{
    let d = ps.drop_last();
    lemma_off(ps, n);
    if n == ps.len() - 1 {
        assert(ps.take(n) =~= d);
    } else {
        lemma_off_at(d, n, k);
        lemma_off_same(ps, n);
    }
}
proof fn lemma_off_same<T>(ps: Seq<Seq<T>>, n: int)
    requires 0 <= n < ps.len()
    ensures off(ps.drop_last(), n) == off(ps, n)
    decreases n
{ if n > 0 { lemma_off_same(ps, n - 1); } }
pub proof fn lemma_flat_len<T, U>(a: Seq<Seq<T>>, b: Seq<Seq<U>>)
    requires a.len() == b.len(), forall|k: int| 0 <= k < a.len() ==> #[trigger] a[k].len() == b[k].len()
    ensures flat(a).len() == flat(b).len()
    decreases a.len()
{ if a.len() > 0 { assert(a.last().len() == b.last().len()); lemma_flat_len(a.drop_last(), b.drop_last()); } }
/// item m of two concatenations of parts of equal lengths is the same item of the same part
pub proof fn lemma_flat_at<T, U>(a: Seq<Seq<T>>, b: Seq<Seq<U>>, m: int) -> (r: (int, int))
    requires a.len() == b.len(), forall|k: int| 0 <= k < a.len() ==> #[trigger] a[k].len() == b[k].len(), 0 <= m < flat(a).len()
    ensures 0 <= r.0 < a.len(), 0 <= r.1 < a[r.0].len(), flat(a)[m] == a[r.0][r.1], m < flat(b).len(), flat(b)[m] == b[r.0][r.1]
    decreases a.len()
{
    let f = flat(a.drop_last());
    assert(a.last().len() == b.last().len());
    lemma_flat_len(a.drop_last(), b.drop_last());
    if m >= f.len() { (a.len() - 1, m - f.len()) } else { lemma_flat_at(a.drop_last(), b.drop_last(), m) }
}
pub open spec fn by_ref<'a, T>(p: spec_fn(T) -> bool) -> spec_fn(&'a T) -> bool { |x: &T| p(*x) }
pub proof fn lemma_keep_refs<'a, T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures keep(refs::<'a, T>(s), by_ref(p)) == refs(keep(s, p))
    decreases s.len()
{
    let r = refs::<'a, T>(s);
    if s.len() > 0 {
        lemma_keep_refs(s.drop_last(), p);
        assert(r.drop_last() =~= refs::<'a, T>(s.drop_last()));
        assert(r.last() == &s.last());
        assert(by_ref(p)(r.last()) == p(s.last()));
    }
    assert(keep(r, by_ref(p)) =~= refs(keep(s, p)));
}
pub proof fn lemma_keep_all<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    requires forall|x: T| #[trigger] p(x)
    ensures keep(s, p) == s
    decreases s.len()
{ if s.len() > 0 { lemma_keep_all(s.drop_last(), p); assert(p(s.last())); } assert(keep(s, p) =~= s); }
pub proof fn lemma_keep_in<T>(s: Seq<T>, p: spec_fn(T) -> bool, k: int) -> (i: int)
    requires 0 <= k < keep(s, p).len()
    ensures 0 <= i < s.len(), s[i] == keep(s, p)[k], p(s[i])
    decreases s.len()
{ if p(s.last()) && k == keep(s, p).len() - 1 { s.len() - 1 } else { lemma_keep_in(s.drop_last(), p, k) } }
pub broadcast group g_dedup { lemma_want, lemma_fold_same, lemma_find_first }
