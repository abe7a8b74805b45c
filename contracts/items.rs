// an iterator over finitely many items (assumed: `for` pulls them in order until there is none)
trait Items<T>: Sized {
    spec fn rest(&self) -> Seq<T>;

    fn pull(&mut self) -> (r: Option<T>)
        ensures
            match r {
                Some(t) => old(self).rest().len() > 0 && t == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
                None => old(self).rest().len() == 0,
            },
    ;

    // bounds from below and above, the latter as loose as it likes
    fn size_hint(&self) -> (r: (usize, Option<usize>))
        ensures
            r.0 <= self.rest().len(),
            r.1 matches Some(n) ==> self.rest().len() <= n,
    ;
}
