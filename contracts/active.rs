// active.rs: the ordered set of active segments, by key
trait Access: Sized {
    type SegmentType;

    spec fn keys(&self) -> Set<usize>;

    // the order of the set
    spec fn below(&self, a: usize, b: usize) -> bool;

    // Default::default()
    fn none() -> (r: Self)
        ensures
            r.keys() == Set::<usize>::empty(),
    ;

    fn prev_key(&self, key: usize, storage: &Slab<Self::SegmentType>) -> (r: Option<usize>)
        ensures
            r matches Some(k) ==> self.keys().contains(k) && k != key && self.below(k, key) && !self.below(key, k),
    ;

    fn next_key(&self, key: usize, storage: &Slab<Self::SegmentType>) -> (r: Option<usize>)
        ensures
            r matches Some(k) ==> self.keys().contains(k) && k != key && self.below(key, k) && !self.below(k, key),
    ;

    unsafe fn add_key(&mut self, key: usize, storage: &Slab<Self::SegmentType>)
        requires
            !old(self).keys().contains(key),
            storage@.contains_key(key),
        ensures
            final(self).keys() == old(self).keys().insert(key),
    ;

    fn remove_key(&mut self, key: usize, storage: &Slab<Self::SegmentType>)
        requires
            old(self).keys().contains(key),
            storage@.contains_key(key),
        ensures
            final(self).keys() == old(self).keys().remove(key),
    ;
}
