// ---------------------------------------------------------------- Vec operations
pub trait VxVecOps<T> {
    spec fn vv(&self) -> Seq<T>;
    fn vx_resize(&mut self, n: usize, v: T)
        ensures final(self).vv() == (if n <= old(self).vv().len() { old(self).vv().take(n as int) } else { old(self).vv() + Seq::new((n - old(self).vv().len()) as nat, |i: int| v) });
    fn vx_reverse(&mut self) ensures final(self).vv() == old(self).vv().reverse();
}
impl<T: VxClone> VxVecOps<T> for Vec<T> {
    open spec fn vv(&self) -> Seq<T> { self@ }
    fn vx_resize(&mut self, n: usize, v: T) {
        let ghost s = self@;
        if n <= self.len() { self.truncate(n); proof { assert(self@ =~= s.take(n as int)); } }
        else {
            while self.len() < n
                invariant s.len() <= self@.len() <= n, self@ =~= s + Seq::new((self@.len() - s.len()) as nat, |i: int| v)
                decreases n - self@.len()
            { self.push(v.vx_clone()); }
        }
    }
    fn vx_reverse(&mut self) {
        let ghost s = self@;
        let mut v: Vec<T> = Vec::new();
        while self.len() > 0
            invariant self@.len() + v@.len() == s.len(), self@ =~= s.take(self@.len() as int), v@ =~= s.reverse().take(v@.len() as int)
            decreases self@.len()
        { let x = self.pop(); match x { Some(x) => { v.push(x); } None => {} } }
        proof { assert(v@ =~= s.reverse()); assert(self@ =~= Seq::empty()); }
        self.append(&mut v);
        proof { assert(self@ =~= s.reverse()); }
    }
}
pub trait VxAppend<T> {
    spec fn av(&self) -> Seq<T>;
    fn vx_append(&mut self, o: &mut Vec<T>) ensures final(self).av() == old(self).av() + old(o)@, final(o)@ == Seq::<T>::empty();
}
impl<T> VxAppend<T> for Vec<T> {
    open spec fn av(&self) -> Seq<T> { self@ }
    fn vx_append(&mut self, o: &mut Vec<T>) { self.append(o); proof { assert(final(o)@ =~= Seq::<T>::empty()); } }
}
pub fn max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
