// ---- active.rs: the splay set as the ordered set of active segments ----------------------------
// assumed: slab::Slab, as far as asked here
#[verifier::external_body]
struct Slab {
    x: usize,
}

impl Slab {
    uninterp spec fn has(&self, k: usize) -> bool;

    #[verifier::external_body]
    fn contains(&self, k: usize) -> (r: bool)
        ensures
            r == self.has(k),
    {
        unimplemented!()
    }
}

// an entry stands for the segment with its key
struct Active {
    key: usize,
}

// the order of the segments
uninterp spec fn act_cmp(a: Active, b: Active) -> Ordering;

impl Active {
    // assumed: Ord of the segments, which orders them while they are active
    #[verifier::external_body]
    fn cmp(&self, other: &Self) -> (r: Ordering)
        ensures
            r == act_cmp(*self, *other),
    {
        unimplemented!()
    }
}

spec fn below(a: usize, b: usize) -> bool {
    act_cmp(Active { key: a }, Active { key: b }) == Ordering::Less
}

spec fn keyed(s: Seq<(Active, ())>, k: usize) -> bool {
    exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == Active { key: k }
}

//@@ struct SplayWrap
//@@ sub `< T : Ord >` => `< C : Fn ( & Active , & Active ) -> Ordering >`
//@@ sub `SplaySet < T , Box < $*x > >` => `SplaySet < Active , C >`
struct SplayWrap< C : Fn ( & Active , & Active ) -> Ordering >(SplaySet < Active , C >);
//@@ end

//@@ fn default self=SplayWrap trait=Default
//@@ sub `fn default ( ) -> Self { Self ( SplaySet :: new ( Box :: new ( | $a : & T , $b : & T | $*e ) ) ) }` => `fn default ( $a : & Active , $b : & Active ) -> Ordering { $*e }`
fn default ( a : & Active , b : & Active ) -> (ret: Ordering) /*@
    ensures
        ret == act_cmp(*a, *b),
@*/ { a.cmp(b) }
//@@ end

proof fn lemma_keyed<C: Fn(&Active, &Active) -> Ordering>(c: C, s: Seq<(Active, ())>, k: usize)
    requires
        total_order::<Active, C>(c),
        sorted(c, s),
    ensures
        keyed(s, k) ==> present(c, Active { key: k }, s) && s[pos(c, Active { key: k }, s)].0 == (Active { key: k }),
        0 <= pos(c, Active { key: k }, s) <= s.len(),
        !present(c, Active { key: k }, s) ==> !keyed(s, k),
{
    let a = Active { key: k };
    lemma_cut(c, a, s);
    lemma_pos(c, a, s);
    lemma_anti(c, a, a);
    if keyed(s, k) {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == a;
        assert(side(c, a, s[i].0) == Ordering::Equal);
    }
}

impl<C: Fn(&Active, &Active) -> Ordering> SplayWrap<C> {
    spec fn view(&self) -> Seq<(Active, ())> {
        self.0.view()
    }

    spec fn wf(&self) -> bool {
        &&& self.0.wf()
        &&& forall|a: Active, b: Active| side(self.0.tree.comparator, a, b) == #[trigger] act_cmp(a, b)
    }

//@@ fn prev_key self=SplayWrap trait=Access
//@@ sub `( & self` => `( & mut self`
//@@ sub `Slab < Self :: SegmentType >` => `Slab`
//@@ sub `unsafe { Active :: new ( $k , $s ) }` => `Active { key : $k }`
    fn prev_key(& mut self, key: usize, storage: &Slab) -> (ret: Option<usize>) /*@
        requires
            old(self).wf(),
        ensures
            final(self).wf() && final(self).view() == old(self).view(),
            ret matches Some(k) ==> keyed(old(self).view(), k) && k != key && below(k, key) && !below(key, k),
            // the nearest one
            forall|j: usize| #[trigger] keyed(old(self).view(), j) && below(j, key) ==> ret is Some && (j == ret->Some_0 || below(j, ret->Some_0)),
    @*/ {
        let aseg = Active { key : key };
        /*@ let ghost (c, s) = (self.0.tree.comparator, self.view());
        proof {
            lemma_wrap_near(c, s, key);
        } @*/
        match self . 0 . prev ( &aseg ) { Some ( s ) => Some ( s.key ) , None => None }
    }
//@@ end

//@@ fn next_key self=SplayWrap trait=Access
//@@ sub `( & self` => `( & mut self`
//@@ sub `Slab < Self :: SegmentType >` => `Slab`
//@@ sub `unsafe { Active :: new ( $k , $s ) }` => `Active { key : $k }`
    fn next_key(& mut self, key: usize, storage: &Slab) -> (ret: Option<usize>) /*@
        requires
            old(self).wf(),
        ensures
            final(self).wf() && final(self).view() == old(self).view(),
            ret matches Some(k) ==> keyed(old(self).view(), k) && k != key && below(key, k) && !below(k, key),
            // the nearest one
            forall|j: usize| #[trigger] keyed(old(self).view(), j) && below(key, j) ==> ret is Some && (j == ret->Some_0 || below(ret->Some_0, j)),
    @*/ {
        let aseg = Active { key : key };
        /*@ let ghost (c, s) = (self.0.tree.comparator, self.view());
        proof {
            lemma_wrap_near(c, s, key);
        } @*/
        match self . 0 . next ( &aseg ) { Some ( s ) => Some ( s.key ) , None => None }
    }
//@@ end

//@@ fn add_key self=SplayWrap trait=Access asserts=may
//@@ sub `Slab < Self :: SegmentType >` => `Slab`
//@@ sub `Active :: new ( $k , $s )` => `Active { key : $k }`
    fn add_key(&mut self, key: usize, storage: &Slab) /*@
        requires
            old(self).wf() && old(self).view().len() < usize::MAX,
            storage.has(key),
        ensures
            final(self).wf(),
            forall|j: usize| #[trigger] keyed(final(self).view(), j) <==> j == key || keyed(old(self).view(), j),
    @*/ {
        /*@ let ghost (c, s) = (self.0.tree.comparator, self.view());
        proof {
            lemma_keyed(c, s, key);
        } @*/
        rt_assert(storage.contains(key));
        rt_refuse(self.0.insert(Active { key : key }));
        /*@ proof {
            lemma_wrap_add(c, s, key);
        } @*/
    }
//@@ end

//@@ fn remove_key self=SplayWrap trait=Access
//@@ sub `Slab < Self :: SegmentType >` => `Slab`
//@@ sub `unsafe { Active :: new ( $k , $s ) }` => `Active { key : $k }`
    fn remove_key(&mut self, key: usize, storage: &Slab) /*@
        requires
            old(self).wf(),
            keyed(old(self).view(), key),
            storage.has(key),
        ensures
            final(self).wf(),
            forall|j: usize| #[trigger] keyed(final(self).view(), j) <==> j != key && keyed(old(self).view(), j),
    @*/ {
        /*@ let ghost (c, s) = (self.0.tree.comparator, self.view());
        proof {
            lemma_keyed(c, s, key);
            lemma_wrap_remove(c, s, key);
        } @*/
        rt_assert(storage.contains(key));
        rt_assert(self.0.remove(& Active { key : key }));
    }
//@@ end
}

proof fn lemma_wrap_near<C: Fn(&Active, &Active) -> Ordering>(c: C, s: Seq<(Active, ())>, key: usize)
    requires
        total_order::<Active, C>(c),
        sorted(c, s),
        forall|a: Active, b: Active| side(c, a, b) == #[trigger] act_cmp(a, b),
    ensures
        m_prev(c, Active { key }, s) matches Some(x) ==> keyed(s, x.0.key) && x.0.key != key && below(x.0.key, key) && !below(key, x.0.key),
        forall|j: usize| #[trigger] keyed(s, j) && below(j, key) ==> m_prev(c, Active { key }, s) is Some && ({
            let k = m_prev(c, Active { key }, s)->Some_0.0.key;
            j == k || below(j, k)
        }),
        m_next(c, Active { key }, s) matches Some(x) ==> keyed(s, x.0.key) && x.0.key != key && below(key, x.0.key) && !below(x.0.key, key),
        forall|j: usize| #[trigger] keyed(s, j) && below(key, j) ==> m_next(c, Active { key }, s) is Some && ({
            let k = m_next(c, Active { key }, s)->Some_0.0.key;
            j == k || below(k, j)
        }),
{
    let a = Active { key };
    let p = pos(c, a, s);
    lemma_cut(c, a, s);
    lemma_pos(c, a, s);
    lemma_anti(c, a, a);
    assert forall|i: int| 0 <= i < s.len() implies side(c, a, s[i].0) == rev(side(c, #[trigger] s[i].0, a)) && keyed(s, s[i].0.key) by {
        lemma_anti(c, a, s[i].0);
        assert(s[i].0 == Active { key: s[i].0.key });
    }
    assert(forall|x: Active, y: Active| side(c, x, y) == act_cmp(x, y));
    assert forall|j: usize| #[trigger] keyed(s, j) && below(j, key) implies m_prev(c, a, s) is Some && ({
        let k = m_prev(c, a, s)->Some_0.0.key;
        j == k || below(j, k)
    }) by {
        reveal(sorted);
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == Active { key: j };
        assert(side(c, s[i].0, a) == Ordering::Less);
        assert(side(c, a, s[i].0) == Ordering::Greater);
        assert(i < p);
        if i < p - 1 {
            assert(side(c, s[i].0, s[p - 1].0) == Ordering::Less);
        }
        assert(s[p - 1].0 == Active { key: s[p - 1].0.key });
    }
    assert forall|j: usize| #[trigger] keyed(s, j) && below(key, j) implies m_next(c, a, s) is Some && ({
        let k = m_next(c, a, s)->Some_0.0.key;
        j == k || below(k, j)
    }) by {
        reveal(sorted);
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == Active { key: j };
        let q = p + if present(c, a, s) {
            1int
        } else {
            0
        };
        assert(side(c, a, s[i].0) == Ordering::Less);
        assert(i >= q);
        if i > q {
            assert(side(c, s[q].0, s[i].0) == Ordering::Less);
        }
        assert(s[q].0 == Active { key: s[q].0.key });
    }
}

proof fn lemma_wrap_add<C: Fn(&Active, &Active) -> Ordering>(c: C, s: Seq<(Active, ())>, key: usize)
    requires
        total_order::<Active, C>(c),
        sorted(c, s),
        !present(c, Active { key }, s),
    ensures
        forall|j: usize| #[trigger] keyed(m_insert(c, Active { key }, (), s), j) <==> j == key || keyed(s, j),
{
    let a = Active { key };
    let p = pos(c, a, s);
    let t = m_insert(c, a, (), s);
    lemma_cut(c, a, s);
    lemma_pos(c, a, s);
    assert forall|j: usize| #[trigger] keyed(t, j) <==> j == key || keyed(s, j) by {
        if keyed(s, j) {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == Active { key: j };
            assert(t[if i < p {
                i
            } else {
                i + 1
            }] == s[i]);
        }
        assert(t[p].0 == a);
        if keyed(t, j) && j != key {
            let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i].0 == Active { key: j };
            assert(s[if i < p {
                i
            } else {
                i - 1
            }] == t[i]);
        }
    }
}

proof fn lemma_wrap_remove<C: Fn(&Active, &Active) -> Ordering>(c: C, s: Seq<(Active, ())>, key: usize)
    requires
        total_order::<Active, C>(c),
        sorted(c, s),
        keyed(s, key),
    ensures
        forall|j: usize| #[trigger] keyed(m_remove(c, Active { key }, s), j) <==> j != key && keyed(s, j),
{
    let a = Active { key };
    let p = pos(c, a, s);
    let t = m_remove(c, a, s);
    lemma_keyed(c, s, key);
    assert forall|j: usize| #[trigger] keyed(t, j) <==> j != key && keyed(s, j) by {
        if keyed(s, j) && j != key {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == Active { key: j };
            assert(t[if i < p {
                i
            } else {
                i - 1
            }] == s[i]);
        }
        if keyed(t, j) {
            let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i].0 == Active { key: j };
            let i0 = if i < p {
                i
            } else {
                i + 1
            };
            assert(s[i0] == t[i]);
            if j == key {
                reveal(sorted);
                lemma_anti(c, a, a);
                assert(side(c, s[p].0, s[i0].0) == Ordering::Less || side(c, s[i0].0, s[p].0) == Ordering::Less);
            }
        }
    }
}
