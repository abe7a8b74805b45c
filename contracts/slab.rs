// slab::Slab
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct Slab<T> {
    p: Vec<Option<T>>,
}

impl<T> Slab<T> {
    uninterp spec fn view(&self) -> Map<usize, T>;

    #[verifier::external_body]
    fn with_capacity(n: usize) -> (r: Self)
        ensures
            r@ == Map::<usize, T>::empty(),
    {
        unimplemented!()
    }

    // vacant_entry().key()
    #[verifier::external_body]
    fn vacant_key(&self) -> (k: usize)
        ensures
            !self@.contains_key(k),
    {
        unimplemented!()
    }

    // vacant_entry().insert(v)
    #[verifier::external_body]
    fn put(&mut self, k: usize, v: T) -> (r: &mut T)
        requires
            !old(self)@.contains_key(k),
        ensures
            *r == v,
            final(self)@ == old(self)@.insert(k, *final(r)),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn get(&self, k: usize) -> (r: Option<&T>)
        ensures
            match r {
                Some(v) => self@.contains_key(k) && *v == self@[k],
                None => !self@.contains_key(k),
            },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn get_mut(&mut self, k: usize) -> (r: Option<&mut T>)
        ensures
            match r {
                Some(v) => old(self)@.contains_key(k) && *v == old(self)@[k] && final(self)@ == old(self)@.insert(k, *final(v)),
                None => !old(self)@.contains_key(k) && final(self)@ == old(self)@,
            },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    unsafe fn get_unchecked(&self, k: usize) -> (r: &T)
        requires
            self@.contains_key(k),
        ensures
            *r == self@[k],
    {
        unimplemented!()
    }

    #[verifier::external_body]
    unsafe fn get_unchecked_mut(&mut self, k: usize) -> (r: &mut T)
        requires
            old(self)@.contains_key(k),
        ensures
            *r == old(self)@[k],
            final(self)@ == old(self)@.insert(k, *final(r)),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn remove(&mut self, k: usize) -> (r: T)
        requires
            old(self)@.contains_key(k),
        ensures
            r == old(self)@[k],
            final(self)@ == old(self)@.remove(k),
    {
        unimplemented!()
    }
}
