// ---------------------------------------------------------------- HashMap / BTreeMap as finite maps over key values
pub trait VxKey { type KV; spec fn kv(&self) -> Self::KV; }
impl VxKey for str { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
impl VxKey for String { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
impl<'a, K: ?Sized + VxKey> VxKey for &'a K { type KV = K::KV; open spec fn kv(&self) -> K::KV { (**self).kv() } }

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K: VxKey, V> { k: Vec<K>, v: Vec<V> }
impl<K: VxKey, V> View for HashMap<K, V> { type V = Map<K::KV, V>; uninterp spec fn view(&self) -> Map<K::KV, V>; }
impl<K: VxKey, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: ?Sized + VxKey<KV = K::KV>>(&self, q: &Q) -> (r: Option<&V>)
        ensures r == (if self@.contains_key(q.kv()) { Some(&self@[q.kv()]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: ?Sized + VxKey<KV = K::KV>>(&self, q: &Q) -> (r: bool) ensures r == self@.contains_key(q.kv())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.kv(), v), r == (if old(self)@.contains_key(k.kv()) { Some(old(self)@[k.kv()]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: ?Sized + VxKey<KV = K::KV>>(&mut self, q: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(q.kv()), r == (if old(self)@.contains_key(q.kv()) { Some(old(self)@[q.kv()]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_entry_or_insert(&mut self, k: K, v: V)
        ensures final(self)@ == (if old(self)@.contains_key(k.kv()) { old(self)@ } else { old(self)@.insert(k.kv(), v) })
    { unimplemented!() }
}
pub uninterp spec fn hash_of<K: VxKey, V>(m: Map<K::KV, V>) -> HashMap<K, V>;
/// TRUSTED: a HashMap is determined by its contents (no operation here shows its iteration order).
pub broadcast axiom fn ax_hash_of<K: VxKey, V>(h: HashMap<K, V>)
    ensures hash_of::<K, V>(#[trigger] h@) == h;
pub broadcast group g_map { ax_hash_of, ax_btree_keys }
impl<K: VxKey, V> VxClone for HashMap<K, V> { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
/// the keys of a BTreeMap in ascending order
pub uninterp spec fn btree_keys<V>(m: Map<Seq<char>, V>) -> Seq<Seq<char>>;

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K: VxKey, V> { k: Vec<K>, v: Vec<V> }
impl<K: VxKey, V> View for BTreeMap<K, V> { type V = Map<K::KV, V>; uninterp spec fn view(&self) -> Map<K::KV, V>; }
/// the order of strings: by character, a prefix before what it begins
pub open spec fn text_before(a: Seq<char>, b: Seq<char>) -> bool decreases a.len() {
    if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] != b[0] { (a[0] as int) < (b[0] as int) } else { text_before(a.skip(1), b.skip(1)) }
}
/// each key once, in ascending order
pub open spec fn in_key_order<V>(ks: Seq<Seq<char>>, m: Map<Seq<char>, V>) -> bool {
    &&& forall|i: int| 0 <= i < ks.len() ==> m.contains_key(#[trigger] ks[i])
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> ks.contains(k)
    &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> text_before(#[trigger] ks[i], #[trigger] ks[j])
    &&& forall|i: int| 0 <= i < ks.len() ==> (#[trigger] string_of(ks[i]))@ == ks[i]
}
impl<'a, V: 'a> VxIter<'a> for BTreeMap<String, V> { type Item = (&'a String, &'a V);
    open spec fn items_spec(&'a self) -> Seq<(&'a String, &'a V)> { Seq::new(btree_keys(self@).len(), |i: int| (&string_of(btree_keys(self@)[i]), &self@[btree_keys(self@)[i]])) }
    #[verifier::external_body] fn vx_iter(&'a self) -> (r: It<(&'a String, &'a V)>) { unimplemented!() } }
/// TRUSTED: a BTreeMap is iterated in ascending key order.
pub broadcast axiom fn ax_btree_keys<V>(m: BTreeMap<String, V>)
    ensures in_key_order(#[trigger] btree_keys(m@), m@);
impl<K: VxKey, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> usize { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: ?Sized + VxKey<KV = K::KV>>(&self, q: &Q) -> (r: Option<&V>)
        ensures r == (if self@.contains_key(q.kv()) { Some(&self@[q.kv()]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.kv(), v)
    { unimplemented!() }
}
