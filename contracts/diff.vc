@unit diff
@pre core textops stdops iter seqops lemmas
@root
use map::quake::tokenizer::Token;
/// s is an order-preserving interleaving of x and y
pub open spec fn weave<T>(s: Seq<T>, x: Seq<T>, y: Seq<T>) -> bool decreases s.len() {
    if s.len() == 0 { x.len() == 0 && y.len() == 0 } else {
        ||| x.len() > 0 && x[0] == s[0] && weave(s.skip(1), x.skip(1), y)
        ||| y.len() > 0 && y[0] == s[0] && weave(s.skip(1), x, y.skip(1))
    }
}
pub open spec fn subseq<T>(k: Seq<T>, s: Seq<T>) -> bool decreases s.len() {
    if k.len() == 0 { true } else if s.len() == 0 { false } else {
        ||| k.last() == s.last() && subseq(k.drop_last(), s.drop_last())
        ||| subseq(k, s.drop_last())
    }
}
/// removed and added turn a into b, and what is kept is a longest common subsequence
pub open spec fn is_diff(d: map::quake::tokenizer::Diff, a: Seq<Token>, b: Seq<Token>) -> bool {
    &&& exists|kept: Seq<&Token>| {
        &&& #[trigger] weave(refs(a), d.removed@, kept)
        &&& weave(refs(b), d.added@, kept)
        &&& forall|k: Seq<&Token>| subseq(k, refs(a)) && subseq(k, refs(b)) ==> k.len() <= kept.len()
    }
    &&& a == b ==> d.removed@.len() == 0 && d.added@.len() == 0
}
/// length of a longest common subsequence of the first i elements of a and the first j of b
pub open spec fn lcs<T>(a: Seq<T>, b: Seq<T>, i: int, j: int) -> int decreases i + j {
    if i <= 0 || j <= 0 { 0 } else if a[i - 1] == b[j - 1] { lcs(a, b, i - 1, j - 1) + 1 } else {
        let p = lcs(a, b, i - 1, j);
        let q = lcs(a, b, i, j - 1);
        if p >= q { p } else { q }
    }
}
pub proof fn lemma_lcs_range<T>(a: Seq<T>, b: Seq<T>, i: int, j: int)
    requires 0 <= i, 0 <= j
    ensures 0 <= lcs(a, b, i, j) <= i, lcs(a, b, i, j) <= j
    decreases i + j
{
    if i > 0 && j > 0 {
        lemma_lcs_range(a, b, i - 1, j - 1);
        lemma_lcs_range(a, b, i - 1, j);
        lemma_lcs_range(a, b, i, j - 1);
    }
}
/// neighbouring entries of the table
pub proof fn lemma_lcs_step<T>(a: Seq<T>, b: Seq<T>, i: int, j: int)
    requires 0 <= i, 0 <= j
    ensures lcs(a, b, i, j) <= lcs(a, b, i + 1, j) <= lcs(a, b, i, j) + 1,
        lcs(a, b, i, j) <= lcs(a, b, i, j + 1) <= lcs(a, b, i, j) + 1
    decreases i + j
{
    lemma_lcs_range(a, b, i, j);
    lemma_lcs_range(a, b, i + 1, j);
    lemma_lcs_range(a, b, i, j + 1);
    if i > 0 { lemma_lcs_step(a, b, i - 1, j); }
    if j > 0 { lemma_lcs_step(a, b, i, j - 1); }
    if i > 0 && j > 0 { lemma_lcs_step(a, b, i - 1, j - 1); }
}
/// no common subsequence is longer
pub proof fn lemma_lcs_longest<T>(a: Seq<T>, b: Seq<T>, i: int, j: int, k: Seq<T>)
    requires 0 <= i <= a.len(), 0 <= j <= b.len(), subseq(k, a.take(i)), subseq(k, b.take(j))
    ensures k.len() <= lcs(a, b, i, j)
    decreases i + j
{
    lemma_lcs_range(a, b, i, j);
    if k.len() > 0 && i > 0 && j > 0 {
        assert(a.take(i).drop_last() =~= a.take(i - 1));
        assert(b.take(j).drop_last() =~= b.take(j - 1));
        lemma_lcs_step(a, b, i - 1, j - 1);
        let ma = k.last() == a[i - 1] && subseq(k.drop_last(), a.take(i - 1));
        let mb = k.last() == b[j - 1] && subseq(k.drop_last(), b.take(j - 1));
        if ma && mb {
            lemma_lcs_longest(a, b, i - 1, j - 1, k.drop_last());
        } else if !ma {
            lemma_lcs_longest(a, b, i - 1, j, k);
            lemma_lcs_step(a, b, i - 1, j);
        } else {
            lemma_lcs_longest(a, b, i, j - 1, k);
            lemma_lcs_step(a, b, i, j - 1);
        }
    }
}
pub proof fn lemma_weave_len<T>(s: Seq<T>, x: Seq<T>, y: Seq<T>)
    requires weave(s, x, y)
    ensures s.len() == x.len() + y.len()
    decreases s.len()
{
    if s.len() > 0 {
        if x.len() > 0 && x[0] == s[0] && weave(s.skip(1), x.skip(1), y) { lemma_weave_len(s.skip(1), x.skip(1), y); }
        else { lemma_weave_len(s.skip(1), x, y.skip(1)); }
    }
}
pub proof fn lemma_subseq_self<T>(s: Seq<T>)
    ensures subseq(s, s)
    decreases s.len()
{ if s.len() > 0 { lemma_subseq_self(s.drop_last()); } }
/// prepending to one part
pub proof fn lemma_weave_left<T>(s: Seq<T>, i: int, x: Seq<T>, y: Seq<T>)
    requires 0 < i <= s.len(), weave(s.skip(i), x, y)
    ensures weave(s.skip(i - 1), seq![s[i - 1]] + x, y)
{
    assert(s.skip(i - 1).skip(1) =~= s.skip(i));
    assert((seq![s[i - 1]] + x).skip(1) =~= x);
}
pub proof fn lemma_weave_right<T>(s: Seq<T>, i: int, x: Seq<T>, y: Seq<T>)
    requires 0 < i <= s.len(), weave(s.skip(i), x, y)
    ensures weave(s.skip(i - 1), x, seq![s[i - 1]] + y)
{
    assert(s.skip(i - 1).skip(1) =~= s.skip(i));
    assert((seq![s[i - 1]] + y).skip(1) =~= y);
}
pub proof fn lemma_rev_push<T>(s: Seq<T>, x: T)
    ensures s.push(x).reverse() == seq![x] + s.reverse()
{ assert(s.push(x).reverse() =~= seq![x] + s.reverse()); }
@file map/mod.rs
@file map/quake/mod.rs
@file map/quake/tokenizer.rs
@types Token Property Diff
@deriveeq Token
@fn Diff::new
@ensures r.added@ == added@, r.removed@ == removed@,
@fn diff_tokens
@props M05
@requires
tokens_a@.len() < usize::MAX,
tokens_b@.len() < usize::MAX,
@ensures
is_diff(r, tokens_a@, tokens_b@),
@proof ghost start
let ghost ra: Seq<&Token> = refs(tokens_a@);
let ghost rb: Seq<&Token> = refs(tokens_b@);
let ghost mut kept: Seq<&Token> = Seq::empty();
@loop 0
@invariant
l@.len() == size_x + 1,
forall|x: int| 0 <= x < vx_i0 ==> (#[trigger] l@[x])@.len() == size_y + 1,
forall|x: int, y: int| 0 <= x < vx_i0 && 0 <= y <= size_y ==> #[trigger] l@[x]@[y] == 0,
forall|x: int| vx_i0 <= x < l@.len() ==> (#[trigger] l@[x])@.len() == 0,
@loop 1
@invariant
l@.len() == size_x + 1,
size_x < usize::MAX,
size_y < usize::MAX,
size_x == tokens_a@.len(),
size_y == tokens_b@.len(),
ra == refs::<Token>(tokens_a@),
rb == refs::<Token>(tokens_b@),
forall|x: int| 0 <= x < l@.len() ==> (#[trigger] l@[x])@.len() == size_y + 1,
forall|x: int, y: int| 0 <= x <= size_x && 0 <= y <= size_y ==> #[trigger] l@[x]@[y] == if x < index_x || x == 0 { lcs(ra, rb, x, y) } else { 0 },
@loop 2
@invariant
index_x <= size_x,
l@.len() == size_x + 1,
size_x < usize::MAX,
size_y < usize::MAX,
size_x == tokens_a@.len(),
size_y == tokens_b@.len(),
ra == refs::<Token>(tokens_a@),
rb == refs::<Token>(tokens_b@),
forall|x: int| 0 <= x < l@.len() ==> (#[trigger] l@[x])@.len() == size_y + 1,
forall|x: int, y: int| 0 <= x <= size_x && 0 <= y <= size_y ==> #[trigger] l@[x]@[y] == if x < index_x || x == 0 || (x == index_x && (y < index_y || y == 0)) { lcs(ra, rb, x, y) } else { 0 },
@proof loop 2 begin
if index_x > 0 && index_y > 0 { lemma_lcs_range(ra, rb, index_x - 1, index_y - 1); }
@proof letbefore removed
assert(refs::<Token>(tokens_a@).skip(size_x as int) =~= Seq::empty());
assert(refs::<Token>(tokens_b@).skip(size_y as int) =~= Seq::empty());
@loop 3
@invariant
i <= size_x,
j <= size_y,
l@.len() == size_x + 1,
size_x == tokens_a@.len(),
size_y == tokens_b@.len(),
ra == refs::<Token>(tokens_a@),
rb == refs::<Token>(tokens_b@),
forall|x: int| 0 <= x < l@.len() ==> (#[trigger] l@[x])@.len() == size_y + 1,
forall|x: int, y: int| 0 <= x <= size_x && 0 <= y <= size_y ==> #[trigger] l@[x]@[y] == lcs(ra, rb, x, y),
weave(ra.skip(i as int), removed@.reverse(), kept),
weave(rb.skip(j as int), added@.reverse(), kept),
kept.len() + lcs(ra, rb, i as int, j as int) == lcs(ra, rb, size_x as int, size_y as int),
@l_decreases i + j
@proof loop 3 begin
if i > 0 && j > 0 && tokens_a@[i - 1] == tokens_b@[j - 1] {
    lemma_weave_right(ra, i as int, removed@.reverse(), kept);
    lemma_weave_right(rb, j as int, added@.reverse(), kept);
    assert(ra[i - 1] == rb[j - 1]);
    kept = seq![ra[i - 1]] + kept;
} else {
    if i > 0 { lemma_weave_left(ra, i as int, removed@.reverse(), kept); lemma_rev_push(removed@, ra[i - 1]); }
    if j > 0 { lemma_weave_left(rb, j as int, added@.reverse(), kept); lemma_rev_push(added@, rb[j - 1]); }
    if i > 0 && j > 0 { assert(ra[i - 1] != rb[j - 1]); }
}
@proof loop 3 post
assert(ra.skip(0) =~= ra);
assert(rb.skip(0) =~= rb);
assert(ra.take(size_x as int) =~= ra);
assert(rb.take(size_y as int) =~= rb);
assert forall|k: Seq<&Token>| subseq(k, ra) && subseq(k, rb) implies k.len() <= kept.len() by { lemma_lcs_longest(ra, rb, size_x as int, size_y as int, k); }
if tokens_a@ == tokens_b@ {
    lemma_subseq_self(ra);
    lemma_weave_len(ra, removed@.reverse(), kept);
    lemma_weave_len(rb, added@.reverse(), kept);
}
