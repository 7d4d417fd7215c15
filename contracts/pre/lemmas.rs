// ---------------------------------------------------------------- proved lemmas over the prelude's functions
pub proof fn lemma_keep_keep<T>(s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool)
    ensures keep(keep(s, p), q) == keep(s, |x: T| p(x) && q(x))
    decreases s.len()
{
    if s.len() > 0 {
        lemma_keep_keep(s.drop_last(), p, q);
        let x = s.last();
        if p(x) {
            assert(keep(s, p).drop_last() =~= keep(s.drop_last(), p));
            assert(keep(s, p).last() == x);
        }
    }
}
