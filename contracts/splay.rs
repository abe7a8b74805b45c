use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
use std::mem;

verus! {

//@@ include prelude.rs
//@@ global `self . root_mut ( )` => `( & mut self . root )`
//@@ global `self . root_ref ( )` => `( & self . root )`
//@@ global `UnsafeCell :: new ( None )` => `None`
//@@ global `UnsafeCell < $*t >` => `$*t`
//@@ global `self . $f ( $*a ) . map ( | $*p | $*e )` => `match self . $f ( $*a ) { Some ( $*p ) => Some ( $*e ) , None => None }`
//@@ global `self . $g . $f ( $*a ) . map ( | $*p | $*e )` => `match self . $g . $f ( $*a ) { Some ( $*p ) => Some ( $*e ) , None => None }`

//@@ struct Node
struct Node<K, V> {
    key: K,
    value: V,
    left: Option<Box<Node<K, V>>>,
    right: Option<Box<Node<K, V>>>,
}
//@@ end

//@@ struct SplayTree
struct SplayTree<K, V, C>
where
    C: Fn(&K, &K) -> Ordering,
{
    comparator: C,
    root: Option<Box<Node<K, V>>>,
    size: usize,
}
//@@ end

//@@ struct IntoIter file=src/splay/tree.rs
struct IntoIter<K, V> {
    cur: Option<Box<Node<K, V>>>,
    remaining: usize,
}
//@@ end

// ---- the abstract view: the entries in order -------------------------------------------------
spec fn ino<K, V>(t: Option<Box<Node<K, V>>>) -> Seq<(K, V)>
    decreases t
{
    match t {
        None => Seq::empty(),
        Some(n) => ino(n.left) + seq![(n.key, n.value)] + ino(n.right),
    }
}

spec fn inon<K, V>(n: Node<K, V>) -> Seq<(K, V)> {
    ino(n.left) + seq![(n.key, n.value)] + ino(n.right)
}

// outcome of the comparator
spec fn side<K, C: Fn(&K, &K) -> Ordering>(c: C, a: K, b: K) -> Ordering {
    choose|o: Ordering| c.ensures((&a, &b), o)
}

// the comparator can be called and is a function
spec fn det<K, C: Fn(&K, &K) -> Ordering>(c: C) -> bool {
    &&& forall|a: K, b: K| #[trigger] c.requires((&a, &b))
    &&& forall|a: K, b: K, o: Ordering| #[trigger] c.ensures((&a, &b), o) ==> o == side(c, a, b)
}

// a total preorder
#[verifier::opaque]
spec fn preorder<K, C: Fn(&K, &K) -> Ordering>(c: C) -> bool {
    &&& forall|a: K, b: K| #[trigger] side(c, a, b) == rev(side(c, b, a))
    &&& forall|x: K, y: K, z: K|
        #[trigger] side(c, x, y) != Ordering::Greater && #[trigger] side(c, y, z) != Ordering::Greater ==> side(c, x, z) != Ordering::Greater && (side(c, x, y)
            == Ordering::Less || side(c, y, z) == Ordering::Less ==> side(c, x, z) == Ordering::Less)
}

spec fn total_order<K, C: Fn(&K, &K) -> Ordering>(c: C) -> bool {
    det::<K, C>(c) && preorder::<K, C>(c)
}

proof fn lemma_anti<K, C: Fn(&K, &K) -> Ordering>(c: C, a: K, b: K)
    requires preorder::<K, C>(c),
    ensures side(c, a, b) == rev(side(c, b, a)),
{
    reveal(preorder);
}

proof fn lemma_trans<K, C: Fn(&K, &K) -> Ordering>(c: C, x: K, y: K, z: K)
    requires preorder::<K, C>(c), side(c, x, y) != Ordering::Greater, side(c, y, z) != Ordering::Greater,
    ensures
        side(c, x, z) != Ordering::Greater,
        side(c, x, y) == Ordering::Less || side(c, y, z) == Ordering::Less ==> side(c, x, z) == Ordering::Less,
{
    reveal(preorder);
}

#[verifier::opaque]
spec fn sorted<K, V, C: Fn(&K, &K) -> Ordering>(c: C, s: Seq<(K, V)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> side(c, #[trigger] s[i].0, #[trigger] s[j].0) == Ordering::Less
}

// `key` cuts the sequence: Greater.. Equal? Less..
#[verifier::opaque]
spec fn cut<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, s: Seq<(K, V)>) -> bool {
    forall|i: int, j: int|
        0 <= i < j < s.len() && side(c, key, #[trigger] s[i].0) != Ordering::Greater ==> side(c, key, #[trigger] s[j].0) == Ordering::Less
}

#[verifier::opaque]
spec fn all_side<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, s: Seq<(K, V)>, o: Ordering) -> bool {
    forall|i: int| 0 <= i < s.len() ==> side(c, key, #[trigger] s[i].0) == o
}

#[verifier::opaque]
spec fn all_not<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, s: Seq<(K, V)>, n: Ordering) -> bool {
    forall|i: int| 0 <= i < s.len() ==> side(c, key, #[trigger] s[i].0) != n
}

// number of entries below the key
spec fn pos<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, s: Seq<(K, V)>) -> int
    decreases s.len()
{
    if s.len() == 0 {
        0
    } else if side(c, key, s.last().0) == Ordering::Greater {
        s.len() as int
    } else {
        pos(c, key, s.drop_last())
    }
}

// does an entry compare equal to the key
spec fn present<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, s: Seq<(K, V)>) -> bool {
    pos(c, key, s) < s.len() && side(c, key, s[pos(c, key, s)].0) == Ordering::Equal
}

// ---- the sorted map every operation is measured against ---------------------------------------
spec fn m_get<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, s: Seq<(K, V)>) -> Option<(K, V)> {
    if present(c, key, s) { Some(s[pos(c, key, s)]) } else { None }
}

spec fn m_insert<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, v: V, s: Seq<(K, V)>) -> Seq<(K, V)> {
    if present(c, key, s) {
        s.update(pos(c, key, s), (s[pos(c, key, s)].0, v))
    } else {
        s.insert(pos(c, key, s), (key, v))
    }
}

// the first n of the entries inserted one after the other
spec fn m_extend<K, V, C: Fn(&K, &K) -> Ordering>(c: C, kvs: Seq<(K, V)>, n: int, s: Seq<(K, V)>) -> Seq<(K, V)>
    decreases n,
{
    if n <= 0 {
        s
    } else {
        m_insert(c, kvs[n - 1].0, kvs[n - 1].1, m_extend(c, kvs, n - 1, s))
    }
}

//@@ include items.rs

spec fn m_remove<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, s: Seq<(K, V)>) -> Seq<(K, V)> {
    if present(c, key, s) { s.remove(pos(c, key, s)) } else { s }
}

spec fn m_next<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, s: Seq<(K, V)>) -> Option<(K, V)> {
    let p = pos(c, key, s) + if present(c, key, s) { 1int } else { 0 };
    if p < s.len() { Some(s[p]) } else { None }
}

spec fn m_prev<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, s: Seq<(K, V)>) -> Option<(K, V)> {
    let p = pos(c, key, s) - 1;
    if 0 <= p { Some(s[p]) } else { None }
}

spec fn val<K, V>(o: Option<(K, V)>) -> Option<V> {
    match o { Some(p) => Some(p.1), None => None }
}

spec fn key_of<K, V>(o: Option<(K, V)>) -> Option<K> {
    match o { Some(p) => Some(p.0), None => None }
}

spec fn deref2<K, V>(o: Option<(&K, &V)>) -> Option<(K, V)> {
    match o { Some(p) => Some((*p.0, *p.1)), None => None }
}

spec fn deref<V>(o: Option<&V>) -> Option<V> {
    match o { Some(p) => Some(*p), None => None }
}

// ---- lemmas -----------------------------------------------------------------------------------
proof fn lemma_nonempty<K, V>(n: Node<K, V>)
    ensures inon(n).len() == ino(n.left).len() + 1 + ino(n.right).len(), inon(n)[ino(n.left).len() as int] == (n.key, n.value),
        ino(n.left).len() > 0 ==> inon(n)[0] == ino(n.left)[0],
        ino(n.right).len() > 0 ==> inon(n).last() == ino(n.right).last(),
        n.right is None ==> inon(n).last() == (n.key, n.value),
{
    assert(inon(n).last() == inon(n)[inon(n).len() - 1]);
}

proof fn lemma_empty_pred<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K)
    ensures all_side(c, key, Seq::<(K, V)>::empty(), Ordering::Less), all_side(c, key, Seq::<(K, V)>::empty(), Ordering::Greater),
        sorted(c, Seq::<(K, V)>::empty()),
{
    reveal(all_side);
    reveal(sorted);
}

proof fn lemma_single<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, x: (K, V), o: Ordering)
    requires side(c, key, x.0) == o,
    ensures all_side(c, key, seq![x], o),
{
    reveal(all_side);
    reveal(sorted);
}

proof fn lemma_cut<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, s: Seq<(K, V)>)
    requires total_order::<K, C>(c), sorted(c, s),
    ensures cut(c, key, s),
{
    reveal(all_side);
    reveal(cut);
    reveal(sorted);
    assert forall|i: int, j: int|
        0 <= i < j < s.len() && side(c, key, #[trigger] s[i].0) != Ordering::Greater implies side(c, key, #[trigger] s[j].0) == Ordering::Less by {
        assert(side(c, s[i].0, s[j].0) == Ordering::Less);
        lemma_trans(c, key, s[i].0, s[j].0);
    }
}

proof fn lemma_pos<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, s: Seq<(K, V)>)
    requires cut(c, key, s),
    ensures
        0 <= pos(c, key, s) <= s.len(),
        forall|i: int| 0 <= i < pos(c, key, s) ==> side(c, key, #[trigger] s[i].0) == Ordering::Greater,
        forall|i: int| pos(c, key, s) <= i < s.len() ==> side(c, key, #[trigger] s[i].0) != Ordering::Greater,
        forall|i: int| pos(c, key, s) < i < s.len() ==> side(c, key, #[trigger] s[i].0) == Ordering::Less,
    decreases s.len(),
{
    reveal(all_side);
    reveal(cut);
    reveal(sorted);
    if s.len() > 0 && side(c, key, s.last().0) != Ordering::Greater {
        let d = s.drop_last();
        assert forall|i: int, j: int|
            0 <= i < j < d.len() && side(c, key, #[trigger] d[i].0) != Ordering::Greater implies side(c, key, #[trigger] d[j].0) == Ordering::Less by {
            assert(d[i] == s[i] && d[j] == s[j]);
        }
        lemma_pos(c, key, d);
        assert forall|i: int| 0 <= i < pos(c, key, s) implies side(c, key, #[trigger] s[i].0) == Ordering::Greater by {
            assert(d[i] == s[i]);
        }
        assert forall|i: int| pos(c, key, s) <= i < s.len() implies side(c, key, #[trigger] s[i].0) != Ordering::Greater by {
            if i < d.len() {
                assert(d[i] == s[i]);
            }
        }
        let p = pos(c, key, s);
        assert forall|i: int| p < i < s.len() implies side(c, key, #[trigger] s[i].0) == Ordering::Less by {
            assert(side(c, key, s[p].0) != Ordering::Greater);
        }
    } else if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() implies side(c, key, #[trigger] s[i].0) == Ordering::Greater by {
            if side(c, key, s[i].0) != Ordering::Greater && i < s.len() - 1 {
                assert(s[s.len() - 1] == s.last());
            }
        }
    }
}

// a split of the sequence into a Greater part, at most one Equal entry and a Less part fixes pos/has
proof fn lemma_insert_len<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, v: V, s: Seq<(K, V)>)
    requires
        total_order::<K, C>(c),
        sorted(c, s),
    ensures
        m_insert(c, key, v, s).len() <= s.len() + 1,
{
    lemma_cut(c, key, s);
    lemma_pos(c, key, s);
}

proof fn lemma_pos_is<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, s: Seq<(K, V)>, p: int)
    requires
        cut(c, key, s),
        0 <= p <= s.len(),
        forall|i: int| 0 <= i < p ==> side(c, key, #[trigger] s[i].0) == Ordering::Greater,
        p < s.len() ==> side(c, key, s[p].0) != Ordering::Greater,
    ensures
        pos(c, key, s) == p,
{
    reveal(all_side);
    reveal(cut);
    reveal(sorted);
    lemma_pos(c, key, s);
    let q = pos(c, key, s);
    if q < p {
        assert(side(c, key, s[q].0) == Ordering::Greater);
    } else if p < q {
        assert(side(c, key, s[p].0) == Ordering::Greater);
    }
}

proof fn lemma_all_side_sub<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, s: Seq<(K, V)>, a: Seq<(K, V)>, b: Seq<(K, V)>, o: Ordering)
    requires s == a + b,
    ensures all_side(c, key, s, o) <==> all_side(c, key, a, o) && all_side(c, key, b, o),
{
    reveal(all_side);
    reveal(cut);
    reveal(sorted);
    if all_side(c, key, s, o) {
        assert forall|i: int| 0 <= i < a.len() implies side(c, key, #[trigger] a[i].0) == o by { assert(a[i] == s[i]); }
        assert forall|i: int| 0 <= i < b.len() implies side(c, key, #[trigger] b[i].0) == o by { assert(b[i] == s[a.len() + i]); }
    }
    if all_side(c, key, a, o) && all_side(c, key, b, o) {
        assert forall|i: int| 0 <= i < s.len() implies side(c, key, #[trigger] s[i].0) == o by {
            if i < a.len() { assert(s[i] == a[i]); } else { assert(s[i] == b[i - a.len()]); }
        }
    }
}

proof fn lemma_all_side_cat<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, a: Seq<(K, V)>, b: Seq<(K, V)>, o: Ordering)
    requires all_side(c, key, a, o), all_side(c, key, b, o),
    ensures all_side(c, key, a + b, o),
{
    reveal(all_side);
    reveal(cut);
    reveal(sorted);
    lemma_all_side_sub(c, key, a + b, a, b, o);
}

// a cut sequence restricted to a middle part is cut, and a non-Greater entry makes all later ones Less ...
proof fn lemma_cut_mid<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, s: Seq<(K, V)>, a: Seq<(K, V)>, m: Seq<(K, V)>, b: Seq<(K, V)>)
    requires cut(c, key, s), s == a + m + b,
    ensures
        cut(c, key, m),
        m.len() > 0 && side(c, key, m.last().0) != Ordering::Greater ==> all_side(c, key, b, Ordering::Less),
        m.len() > 0 && side(c, key, m[0].0) != Ordering::Less ==> all_side(c, key, a, Ordering::Greater),
{
    reveal(all_side);
    reveal(cut);
    reveal(sorted);
    let n = a.len() as int;
    assert forall|i: int, j: int|
        0 <= i < j < m.len() && side(c, key, #[trigger] m[i].0) != Ordering::Greater implies side(c, key, #[trigger] m[j].0) == Ordering::Less by {
        assert(m[i] == s[n + i] && m[j] == s[n + j]);
    }
    if m.len() > 0 && side(c, key, m.last().0) != Ordering::Greater {
        assert forall|i: int| 0 <= i < b.len() implies side(c, key, #[trigger] b[i].0) == Ordering::Less by {
            assert(b[i] == s[n + m.len() + i] && m.last() == s[n + m.len() - 1]);
        }
    }
    if m.len() > 0 && side(c, key, m[0].0) != Ordering::Less {
        assert forall|i: int| 0 <= i < a.len() implies side(c, key, #[trigger] a[i].0) == Ordering::Greater by {
            assert(a[i] == s[i] && m[0] == s[n]);
        }
    }
}

proof fn lemma_node<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, l: Seq<(K, V)>, x: (K, V), r: Seq<(K, V)>)
    requires cut(c, key, l + seq![x] + r),
    ensures
        cut(c, key, l), cut(c, key, r),
        side(c, key, x.0) != Ordering::Greater ==> all_side(c, key, r, Ordering::Less),
        side(c, key, x.0) != Ordering::Less ==> all_side(c, key, l, Ordering::Greater),
{
    reveal(all_side);
    reveal(cut);
    reveal(sorted);
    let s = l + seq![x] + r;
    assert(s =~= l + (seq![x] + r));
    lemma_cut_mid(c, key, s, l, seq![x], r);
    assert(s =~= Seq::<(K, V)>::empty() + l + (seq![x] + r));
    lemma_cut_mid(c, key, s, Seq::<(K, V)>::empty(), l, seq![x] + r);
    assert(s =~= (l + seq![x]) + r + Seq::<(K, V)>::empty());
    lemma_cut_mid(c, key, s, l + seq![x], r, Seq::<(K, V)>::empty());
}

// what a lookup at the root of a splayed tree means
proof fn lemma_splayed<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, l: Seq<(K, V)>, x: (K, V), r: Seq<(K, V)>)
    requires
        cut(c, key, l + seq![x] + r),
        all_side(c, key, l, Ordering::Greater),
        all_side(c, key, r, Ordering::Less),
    ensures
        ({
            let s = l + seq![x] + r;
            &&& s[l.len() as int] == x
            &&& pos(c, key, s) == l.len() + if side(c, key, x.0) == Ordering::Greater { 1int } else { 0 }
            &&& present(c, key, s) <==> side(c, key, x.0) == Ordering::Equal
            &&& side(c, key, x.0) == Ordering::Equal ==> forall|v: V| #![trigger m_insert(c, key, v, s)] #![trigger l + seq![(x.0, v)] + r] m_insert(c, key, v, s) == l + seq![(x.0, v)] + r
        }),
{
    reveal(all_side);
    reveal(cut);
    reveal(sorted);
    let s = l + seq![x] + r;
    let n = l.len() as int;
    let p = n + if side(c, key, x.0) == Ordering::Greater { 1int } else { 0 };
    assert forall|i: int| 0 <= i < p implies side(c, key, #[trigger] s[i].0) == Ordering::Greater by {
        if i < n { assert(s[i] == l[i]); }
    }
    if p < s.len() && p > n {
        assert(s[p] == r[0]);
    }
    lemma_pos_is(c, key, s, p);
    if side(c, key, x.0) == Ordering::Equal {
        assert forall|v: V| #[trigger] m_insert(c, key, v, s) == l + seq![(x.0, v)] + r by {
            assert(m_insert(c, key, v, s) =~= l + seq![(x.0, v)] + r);
        }
    }
}

// re-association
proof fn lemma_move_right<T>(a: Seq<T>, m: Seq<T>, x: T, r: Seq<T>, b: Seq<T>)
    ensures a + (m + seq![x] + r) + b == a + m + ((seq![x] + r) + b),
{
    assert(a + (m + seq![x] + r) + b =~= a + m + ((seq![x] + r) + b));
}

proof fn lemma_move_left<T>(a: Seq<T>, l: Seq<T>, x: T, m: Seq<T>, b: Seq<T>)
    ensures a + (l + seq![x] + m) + b == (a + (l + seq![x])) + m + b,
{
    assert(a + (l + seq![x] + m) + b =~= (a + (l + seq![x])) + m + b);
}

proof fn lemma_rot<T>(m: Seq<T>, y: T, n: Seq<T>, x: T, r: Seq<T>)
    ensures
        (m + seq![y] + n) + seq![x] + r == m + seq![y] + (n + seq![x] + r),
        m.len() == 0 ==> m + seq![y] + (n + seq![x] + r) == seq![y] + (n + seq![x] + r),
        r.len() == 0 ==> (m + seq![y] + n) + seq![x] + r == (m + seq![y] + n) + seq![x],
{
    assert((m + seq![y] + n) + seq![x] + r =~= m + seq![y] + (n + seq![x] + r));
    if m.len() == 0 {
        assert(m + seq![y] + (n + seq![x] + r) =~= seq![y] + (n + seq![x] + r));
    }
    if r.len() == 0 {
        assert((m + seq![y] + n) + seq![x] + r =~= (m + seq![y] + n) + seq![x]);
    }
}

proof fn lemma_assoc_right<T>(q: Seq<T>, x: T, r: Seq<T>, b: Seq<T>)
    ensures (q + seq![x] + r) + b == q + ((seq![x] + r) + b),
{
    assert((q + seq![x] + r) + b =~= q + ((seq![x] + r) + b));
}

proof fn lemma_assoc_left<T>(a: Seq<T>, l: Seq<T>, x: T, q: Seq<T>)
    ensures a + (l + seq![x] + q) == (a + (l + seq![x])) + q,
{
    assert(a + (l + seq![x] + q) =~= (a + (l + seq![x])) + q);
}

proof fn lemma_ino<K, V>(n: Box<Node<K, V>>)
    ensures ino(Some(n)) == ino(n.left) + seq![(n.key, n.value)] + ino(n.right),
{
}

// sorting survives insertion at pos, removal, and replacing a value
proof fn lemma_sorted_ops<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, v: V, s: Seq<(K, V)>)
    requires total_order::<K, C>(c), sorted(c, s),
    ensures sorted(c, m_insert(c, key, v, s)), sorted(c, m_remove(c, key, s)),
{
    reveal(all_side);
    reveal(cut);
    reveal(sorted);
    lemma_cut(c, key, s);
    lemma_pos(c, key, s);
    let p = pos(c, key, s);
    let t = m_insert(c, key, v, s);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies side(c, #[trigger] t[i].0, #[trigger] t[j].0) == Ordering::Less by {
        if present(c, key, s) {
            assert(t[i].0 == s[i].0 && t[j].0 == s[j].0);
        } else {
            if i < p && j == p {
                assert(t[i] == s[i]);
                assert(side(c, key, s[i].0) == Ordering::Greater);
                lemma_anti(c, key, s[i].0);
            } else if i == p {
                assert(t[j] == s[j - 1]);
                assert(side(c, key, s[j - 1].0) == Ordering::Less);
            } else if j < p {
                assert(t[i] == s[i] && t[j] == s[j]);
            } else if i < p {
                assert(t[i] == s[i] && t[j] == s[j - 1]);
            } else {
                assert(t[i] == s[i - 1] && t[j] == s[j - 1]);
            }
        }
    }
}

proof fn lemma_sorted_remove<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, s: Seq<(K, V)>)
    requires total_order::<K, C>(c), sorted(c, s),
    ensures sorted(c, m_remove(c, key, s)),
{
    reveal(all_side);
    reveal(cut);
    reveal(sorted);
    lemma_cut(c, key, s);
    lemma_pos(c, key, s);
    let u = m_remove(c, key, s);
    let p = pos(c, key, s);
    if present(c, key, s) {
        assert forall|i: int, j: int| 0 <= i < j < u.len() implies side(c, #[trigger] u[i].0, #[trigger] u[j].0) == Ordering::Less by {
            let i2 = if i < p { i } else { i + 1 };
            let j2 = if j < p { j } else { j + 1 };
            assert(u[i] == s[i2] && u[j] == s[j2]);
        }
    }
}

// entries known to be above and below the key at once do not exist
proof fn lemma_disjoint_sides<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, s: Seq<(K, V)>, a: Seq<(K, V)>, b: Seq<(K, V)>)
    requires all_side(c, key, s, Ordering::Greater), s == a + b, all_side(c, key, b, Ordering::Less),
    ensures b.len() == 0,
{
    reveal(all_side);
    reveal(cut);
    reveal(sorted);
    if b.len() > 0 {
        assert(s[a.len() as int] == b[0]);
        assert(side(c, key, s[a.len() as int].0) == Ordering::Greater);
        assert(side(c, key, b[0].0) == Ordering::Less);
    }
}

proof fn lemma_split_next<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, s: Seq<(K, V)>, a: Seq<(K, V)>, b: Seq<(K, V)>)
    requires
        cut(c, key, s), s == a + b,
        all_not(c, key, a, Ordering::Less),
        all_side(c, key, b, Ordering::Less),
    ensures
        m_next(c, key, s) == (if b.len() > 0 { Some(b[0]) } else { None }),
{
    reveal(all_not);
    reveal(all_side);
    reveal(cut);
    reveal(sorted);
    lemma_pos(c, key, s);
    let p = pos(c, key, s) + if present(c, key, s) { 1int } else { 0 };
    let n = a.len() as int;
    if p < n {
        assert(s[p] == a[p]);
        assert(side(c, key, s[p].0) == Ordering::Less) by {
            if p == pos(c, key, s) {
                assert(side(c, key, s[p].0) != Ordering::Greater);
            }
        }
    }
    if n < p {
        assert(s[n] == b[0]);
        assert(side(c, key, s[n].0) != Ordering::Less) by {
            if n < pos(c, key, s) {
                assert(side(c, key, s[n].0) == Ordering::Greater);
            }
        }
    }
    if n < s.len() {
        assert(s[n] == b[0]);
    }
}

proof fn lemma_split_prev<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, s: Seq<(K, V)>, a: Seq<(K, V)>, b: Seq<(K, V)>)
    requires
        cut(c, key, s), s == a + b,
        all_side(c, key, a, Ordering::Greater),
        all_not(c, key, b, Ordering::Greater),
    ensures
        m_prev(c, key, s) == (if a.len() > 0 { Some(a.last()) } else { None }),
{
    reveal(all_not);
    reveal(all_side);
    reveal(cut);
    reveal(sorted);
    let n = a.len() as int;
    assert forall|i: int| 0 <= i < n implies side(c, key, #[trigger] s[i].0) == Ordering::Greater by {
        assert(s[i] == a[i]);
    }
    if n < s.len() {
        assert(s[n] == b[0]);
    }
    lemma_pos_is(c, key, s, n);
    if n > 0 {
        assert(s[n - 1] == a.last());
    }
}

// an equal key sees the same sides
proof fn lemma_equal_side<K, C: Fn(&K, &K) -> Ordering>(c: C, a: K, b: K, k: K)
    requires preorder::<K, C>(c), side(c, a, b) == Ordering::Equal,
    ensures side(c, a, k) == side(c, b, k),
{
    reveal(all_side);
    reveal(cut);
    reveal(sorted);
    lemma_anti(c, a, b);
    lemma_anti(c, a, k);
    lemma_anti(c, b, k);
    match side(c, b, k) {
        Ordering::Less => { lemma_trans(c, a, b, k); }
        Ordering::Greater => { lemma_trans(c, k, b, a); }
        Ordering::Equal => { lemma_trans(c, a, b, k); lemma_trans(c, k, b, a); }
    }
}

// in a sorted sequence an entry equal to the key is the one `pos` points at
proof fn lemma_found<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, s: Seq<(K, V)>, w: int)
    requires total_order::<K, C>(c), sorted(c, s), 0 <= w < s.len(), side(c, key, s[w].0) == Ordering::Equal,
    ensures present(c, key, s), pos(c, key, s) == w,
{
    reveal(all_side);
    reveal(cut);
    reveal(sorted);
    lemma_cut(c, key, s);
    lemma_pos(c, key, s);
    let q = pos(c, key, s);
    if w < q { assert(side(c, key, s[w].0) == Ordering::Greater); }
    if w > q { assert(side(c, key, s[w].0) == Ordering::Less); }
}

// the reference operations are those of a map: what lookup answers after an update
proof fn lemma_map_insert_same<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, v: V, other: K, s: Seq<(K, V)>)
    requires total_order::<K, C>(c), sorted(c, s), side(c, other, key) == Ordering::Equal,
    ensures m_get(c, other, m_insert(c, key, v, s)) is Some, m_get(c, other, m_insert(c, key, v, s)).unwrap().1 == v,
{
    let p = pos(c, key, s);
    lemma_cut(c, key, s);
    lemma_pos(c, key, s);
    lemma_sorted_ops(c, key, v, s);
    let t = m_insert(c, key, v, s);
    lemma_anti(c, key, key);
    assert(0 <= p < t.len() && t[p].1 == v);
    assert(side(c, key, t[p].0) == Ordering::Equal);
    lemma_equal_side(c, other, key, t[p].0);
    lemma_found(c, other, t, p);
}

proof fn lemma_insert_at<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, v: V, s: Seq<(K, V)>, i: int)
    requires cut(c, key, s), 0 <= i < s.len(), !(present(c, key, s) && i == pos(c, key, s)),
    ensures
        ({
            let w = if present(c, key, s) || i < pos(c, key, s) { i } else { i + 1 };
            let t = m_insert(c, key, v, s);
            0 <= w < t.len() && t[w] == s[i] && w != pos(c, key, s)
        }),
{
    lemma_pos(c, key, s);
}

proof fn lemma_map_insert_other<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, v: V, other: K, s: Seq<(K, V)>)
    requires total_order::<K, C>(c), sorted(c, s), side(c, other, key) != Ordering::Equal,
    ensures m_get(c, other, m_insert(c, key, v, s)) == m_get(c, other, s),
{
    let p = pos(c, key, s);
    lemma_cut(c, key, s);
    lemma_pos(c, key, s);
    lemma_sorted_ops(c, key, v, s);
    let t = m_insert(c, key, v, s);
    if present(c, key, s) {
        lemma_anti(c, key, s[p].0);
        if side(c, other, s[p].0) == Ordering::Equal {
            lemma_equal_side(c, s[p].0, key, other);
            lemma_anti(c, other, key);
            lemma_anti(c, other, s[p].0);
        }
    }
    lemma_cut(c, other, s);
    lemma_pos(c, other, s);
    let qs = pos(c, other, s);
    if present(c, other, s) {
        lemma_insert_at(c, key, v, s, qs);
        let w = if present(c, key, s) || qs < p { qs } else { qs + 1 };
        lemma_found(c, other, t, w);
    } else if present(c, other, t) {
        lemma_cut(c, other, t);
        lemma_pos(c, other, t);
        let qt = pos(c, other, t);
        assert(t.len() == s.len() + if present(c, key, s) { 0int } else { 1 });
        let w = if present(c, key, s) || qt < p { qt } else { qt - 1 };
        assert(qt == p ==> side(c, other, t[p].0) != Ordering::Equal);
        lemma_insert_at(c, key, v, s, w);
        assert(s[w].0 == t[qt].0);
        lemma_found(c, other, s, w);
    }
}

proof fn lemma_map_insert<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, v: V, other: K, s: Seq<(K, V)>)
    requires total_order::<K, C>(c), sorted(c, s),
    ensures
        val(m_get(c, other, m_insert(c, key, v, s))) == if side(c, other, key) == Ordering::Equal { Some(v) } else { val(m_get(c, other, s)) },
{
    if side(c, other, key) == Ordering::Equal {
        lemma_map_insert_same(c, key, v, other, s);
    } else {
        lemma_map_insert_other(c, key, v, other, s);
    }
}

proof fn lemma_map_remove<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, other: K, s: Seq<(K, V)>)
    requires total_order::<K, C>(c), sorted(c, s),
    ensures
        val(m_get(c, other, m_remove(c, key, s))) == if side(c, other, key) == Ordering::Equal { None } else { val(m_get(c, other, s)) },
{
    let p = pos(c, key, s);
    lemma_cut(c, key, s);
    lemma_pos(c, key, s);
    lemma_cut(c, other, s);
    lemma_pos(c, other, s);
    lemma_sorted_remove(c, key, s);
    let u = m_remove(c, key, s);
    lemma_cut(c, other, u);
    lemma_pos(c, other, u);
    let qs = pos(c, other, s);
    let qu = pos(c, other, u);
    if side(c, other, key) == Ordering::Equal {
        if present(c, other, u) {
            lemma_anti(c, other, key);
            lemma_equal_side(c, other, key, u[qu].0);
            if present(c, key, s) {
                let w = if qu < p { qu } else { qu + 1 };
                assert(u[qu] == s[w]);
                lemma_found(c, key, s, w);
            } else {
                lemma_found(c, key, s, qu);
            }
        }
    } else {
        if present(c, key, s) {
            lemma_anti(c, key, s[p].0);
            if side(c, other, s[p].0) == Ordering::Equal {
                lemma_equal_side(c, s[p].0, key, other);
                lemma_anti(c, other, key);
                lemma_anti(c, other, s[p].0);
            }
        }
        if present(c, other, s) {
            let z = if !present(c, key, s) || qs < p { qs } else { qs - 1 };
            assert(u[z] == s[qs]);
            lemma_found(c, other, u, z);
        }
        if present(c, other, u) {
            let w = if !present(c, key, s) || qu < p { qu } else { qu + 1 };
            assert(s[w].0 == u[qu].0);
            lemma_found(c, other, s, w);
        }
    }
}

proof fn lemma_sorted_update<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, s: Seq<(K, V)>)
    requires total_order::<K, C>(c), sorted(c, s),
    ensures forall|v: V| sorted(c, #[trigger] m_insert(c, key, v, s)),
{
    assert forall|v: V| sorted(c, #[trigger] m_insert(c, key, v, s)) by {
        lemma_sorted_ops(c, key, v, s);
    }
}

proof fn lemma_sorted_empty<K, V, C: Fn(&K, &K) -> Ordering>(c: C)
    ensures sorted(c, Seq::<(K, V)>::empty()),
{
    reveal(sorted);
}

proof fn lemma_all_not<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, s: Seq<(K, V)>, o: Ordering, n: Ordering)
    requires all_side(c, key, s, o), o != n,
    ensures all_not(c, key, s, n),
{
    reveal(all_side);
    reveal(all_not);
}

proof fn lemma_all_not_single<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, x: (K, V), n: Ordering)
    requires side(c, key, x.0) != n,
    ensures all_not(c, key, seq![x], n),
{
    reveal(all_not);
}

proof fn lemma_all_not_empty<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, n: Ordering)
    ensures all_not(c, key, Seq::<(K, V)>::empty(), n),
{
    reveal(all_not);
}

proof fn lemma_all_not_cat<K, V, C: Fn(&K, &K) -> Ordering>(c: C, key: K, a: Seq<(K, V)>, b: Seq<(K, V)>, n: Ordering)
    requires all_not(c, key, a, n), all_not(c, key, b, n),
    ensures all_not(c, key, a + b, n),
{
    reveal(all_not);
    let s = a + b;
    assert forall|i: int| 0 <= i < s.len() implies side(c, key, #[trigger] s[i].0) != n by {
        if i < a.len() { assert(s[i] == a[i]); } else { assert(s[i] == b[i - a.len()]); }
    }
}

// ---- node.rs ----------------------------------------------------------------------------------
impl<K, V> Node<K, V> {
//@@ fn new_boxed self=Node
    fn new_boxed(k: K, v: V, l: Option<Box<Node<K, V>>>, r: Option<Box<Node<K, V>>>) -> (ret: Box<Node<K, V>>)/*@
        ensures *ret == (Node { key: k, value: v, left: l, right: r }),
    @*/ {
        Box::new(Node {
            key: k,
            value: v,
            left: l,
            right: r,
        })
    }
//@@ end

//@@ fn pop_left self=Node
    fn pop_left(&mut self) -> (ret: Option<Box<Node<K, V>>>)/*@
        ensures ret == old(self).left, *final(self) == (Node { left: None, ..*old(self) }),
    @*/ {
        self.left.take()
    }
//@@ end

//@@ fn pop_right self=Node
    fn pop_right(&mut self) -> (ret: Option<Box<Node<K, V>>>)/*@
        ensures ret == old(self).right, *final(self) == (Node { right: None, ..*old(self) }),
    @*/ {
        self.right.take()
    }
//@@ end
}

// ---- tree.rs ----------------------------------------------------------------------------------
//@@ fn splay
fn splay<K, V, C>(key: &K, node: &mut Box<Node<K, V>>, comparator: &C)
where
    C: Fn(&K, &K) -> Ordering,
/*@
        requires det::<K, C>(*comparator), cut(*comparator, *key, ino(Some(*old(node)))),
    ensures
        ino(Some(*final(node))) == ino(Some(*old(node))),
        all_side(*comparator, *key, ino(final(node).left), Ordering::Greater),
        all_side(*comparator, *key, ino(final(node).right), Ordering::Less),
    @*/ {
    /*@ let ghost c = *comparator;
    let ghost s0 = ino(Some(*node));
    let ghost mut a: Seq<(K, V)> = Seq::empty();
    let ghost mut b: Seq<(K, V)> = Seq::empty();
    let ghost mut nl: Option<Box<Node<K, V>>> = None;
    let ghost mut nr: Option<Box<Node<K, V>>> = None;
    let ghost mut xk: (K, V) = arbitrary(); @*/ let mut newleft = None;
    let mut newright = None;
    {
        let mut l = &mut newright;
        let mut r = &mut newleft; /*@ let ghost fl = *final(l);
        let ghost fr = *final(r);
        proof {
            lemma_empty_pred::<K, V, C>(c, *key);
            assert(s0 =~= a + ino(Some(*node)) + b);
            assert(ino(fl) =~= a + ino(*final(l)));
            assert(ino(fr) =~= ino(*final(r)) + b);
        } @*/
        loop /*@ invariant 
                det::<K, C>(c), c == *comparator, cut(c, *key, s0),
                s0 == a + ino(Some(*node)) + b,
                all_side(c, *key, a, Ordering::Greater),
                all_side(c, *key, b, Ordering::Less),
                *l == None::<Box<Node<K, V>>>, *r == None::<Box<Node<K, V>>>,
                ino(fl) == a + ino(*final(l)),
                ino(fr) == ino(*final(r)) + b,

            ensures
                all_side(c, *key, ino(node.left), Ordering::Greater),
                all_side(c, *key, ino(node.right), Ordering::Less),
            decreases ino(Some(*node)).len(), @*/{
           /*@ let ghost n0 = *node;
            let ghost x0 = (n0.key, n0.value);
            proof {
                lemma_empty_pred::<K, V, C>(c, *key);
                lemma_cut_mid(c, *key, s0, a, ino(Some(n0)), b);
                lemma_ino(n0);
                lemma_node(c, *key, ino(n0.left), x0, ino(n0.right));
            } @*/ match comparator(key, &node.key) {
                Ordering::Equal => break,
                Ordering::Less => {
                    let mut left = match node.pop_left() {
                        Some(left) => left,
                        None => break,
                    };
                   /*@ let ghost m0 = left;
                    let ghost y0 = (m0.key, m0.value);
                    let ghost mut e: Seq<(K, V)> = seq![x0] + ino(n0.right);
                    let ghost mut m: Seq<(K, V)> = ino(Some(m0));
                    proof {
                        lemma_ino(m0);
                        lemma_node(c, *key, ino(m0.left), y0, ino(m0.right));
                        lemma_single(c, *key, x0, Ordering::Less);
                        lemma_all_side_cat(c, *key, seq![x0], ino(n0.right), Ordering::Less);
                        lemma_move_right(a, ino(n0.left), x0, ino(n0.right), b);
                    } @*/ if comparator(key, &left.key) == Ordering::Less {
                        mem::swap(&mut node.left, &mut left.right);
                        mem::swap(&mut left, node);
                        let none = mem::replace(&mut node.right, Some(left));
                        /*@ proof {
                            lemma_single(c, *key, y0, Ordering::Less);
                            let inner = ino(m0.right) + seq![x0] + ino(n0.right);
                            lemma_rot(ino(m0.left), y0, ino(m0.right), x0, ino(n0.right));
                            lemma_assoc_right(ino(m0.right), x0, ino(n0.right), Seq::empty());
                            assert(inner =~= ino(m0.right) + (seq![x0] + ino(n0.right)));
                            lemma_all_side_cat(c, *key, ino(m0.right), seq![x0] + ino(n0.right), Ordering::Less);
                            lemma_all_side_cat(c, *key, seq![y0], inner, Ordering::Less);
                            lemma_move_right(a, ino(m0.left), y0, inner, b);
                            e = seq![y0] + inner;
                            m = ino(m0.left);
                            assert(none is None);
                            lemma_ino(node.right.unwrap());
                            assert(ino(node.right) == inner);
                            assert(node.left == m0.left);
                            lemma_ino(*node);
                        } @*/ match mem::replace(&mut node.left, none) {
                            Some(l) => {
                                left = l;
                            }
                            None => break,
                        }
                    }
                    /*@ let ghost q0 = *node;
                    proof { assert(node.left is None); } @*/ *r = Some(mem::replace(node, left));
                    let tmp = r;
                    r = &mut tmp.as_mut().unwrap().left; /*@ proof {
                        lemma_all_side_cat(c, *key, e, b, Ordering::Less);
                        assert(e == seq![(q0.key, q0.value)] + ino(q0.right));
                        lemma_assoc_right(ino(*final(r)), (q0.key, q0.value), ino(q0.right), b);
                        b = e + b;
                    } @*/
                }
                Ordering::Greater => {
                    let mut right = match node.pop_right() {
                        Some(right) => right,
                        None => break,
                    };
                   /*@ let ghost m0 = right;
                    let ghost y0 = (m0.key, m0.value);
                    let ghost mut e: Seq<(K, V)> = ino(n0.left) + seq![x0];
                    let ghost mut m: Seq<(K, V)> = ino(Some(m0));
                    proof {
                        lemma_ino(m0);
                        lemma_node(c, *key, ino(m0.left), y0, ino(m0.right));
                        lemma_single(c, *key, x0, Ordering::Greater);
                        lemma_all_side_cat(c, *key, ino(n0.left), seq![x0], Ordering::Greater);
                        lemma_move_left(a, ino(n0.left), x0, ino(n0.right), b);
                    } @*/ if comparator(key, &right.key) == Ordering::Greater {
                        mem::swap(&mut node.right, &mut right.left);
                        mem::swap(&mut right, node);
                        let none = mem::replace(&mut node.left, Some(right));
                        /*@ proof {
                            lemma_single(c, *key, y0, Ordering::Greater);
                            let inner = ino(n0.left) + seq![x0] + ino(m0.left);
                            lemma_rot(ino(n0.left), x0, ino(m0.left), y0, ino(m0.right));
                            lemma_all_side_cat(c, *key, ino(n0.left) + seq![x0], ino(m0.left), Ordering::Greater);
                            lemma_all_side_cat(c, *key, inner, seq![y0], Ordering::Greater);
                            lemma_move_left(a, inner, y0, ino(m0.right), b);
                            e = inner + seq![y0];
                            m = ino(m0.right);
                            assert(none is None);
                            lemma_ino(node.left.unwrap());
                            assert(ino(node.left) == inner);
                            assert(node.right == m0.right);
                            lemma_ino(*node);
                        } @*/ match mem::replace(&mut node.right, none) {
                            Some(r) => {
                                right = r;
                            }
                            None => break,
                        }
                    }
                    /*@ let ghost q0 = *node;
                    proof { assert(node.right is None); } @*/ *l = Some(mem::replace(node, right));
                    let tmp = l;
                    l = &mut tmp.as_mut().unwrap().right; /*@ proof {
                        lemma_all_side_cat(c, *key, a, e, Ordering::Greater);
                        assert(e == ino(q0.left) + seq![(q0.key, q0.value)]);
                        lemma_assoc_left(a, ino(q0.left), (q0.key, q0.value), ino(*final(l)));
                        a = a + e;
                    } @*/
                }
            }
        }
        /*@ proof { nl = node.left; nr = node.right; xk = (node.key, node.value); } @*/ mem::swap(l, &mut node.left);
        mem::swap(r, &mut node.right);
    }
    node.left = newright;
    node.right = newleft;
/*@ proof {
        assert(ino(newright) =~= a + ino(nl));
        assert(ino(newleft) =~= ino(nr) + b);
        lemma_all_side_cat(c, *key, a, ino(nl), Ordering::Greater);
        lemma_all_side_cat(c, *key, ino(nr), b, Ordering::Less);
        assert((a + ino(nl)) + seq![xk] + (ino(nr) + b) =~= s0);
    } @*/ }
//@@ end

impl<K, V, C> SplayTree<K, V, C>
where
    C: Fn(&K, &K) -> Ordering,
{
    spec fn view(&self) -> Seq<(K, V)> {
        ino(self.root)
    }

    // the data-structure invariant
    spec fn wf(&self) -> bool {
        &&& total_order::<K, C>(self.comparator)
        &&& sorted(self.comparator, ino(self.root))
        &&& self.size == ino(self.root).len()
    }

//@@ fn new self=SplayTree
    fn new(comparator: C) -> (ret: SplayTree<K, V, C>)/*@
        requires total_order::<K, C>(comparator), ensures ret.wf(), ret.view() =~= Seq::<(K, V)>::empty(), ret.comparator == comparator,
    @*/ {
        /*@ proof { lemma_sorted_empty::<K, V, C>(comparator); } @*/ SplayTree {
            comparator,
            root: None,
            size: 0,
        }
    }
//@@ end

//@@ fn len self=SplayTree
    fn len(&self) -> (ret: usize)/*@
        requires self.wf(), ensures ret == self.view().len(),
    @*/ {
        self.size
    }
//@@ end

//@@ fn is_empty self=SplayTree
    fn is_empty(&self) -> (ret: bool)/*@
        requires self.wf(), ensures ret <==> self.view().len() == 0,
    @*/ {
        self.len() == 0
    }
//@@ end

//@@ fn clear self=SplayTree
    fn clear(&mut self)/*@
        requires old(self).wf(), ensures final(self).wf(), final(self).comparator == old(self).comparator, final(self).view() =~= Seq::<(K, V)>::empty(),
    @*/ {
        let mut iter = IntoIter {
            cur: ( & mut self . root ).take(),
            remaining: self.size,
        };
        while iter.next().is_some() /*@ invariant iter.wf(), ensures ino(iter.cur).len() == 0, decreases ino(iter.cur).len(), @*/{}
        /*@ proof { lemma_sorted_empty::<K, V, C>(self.comparator); } @*/ self.size = 0;
    }
//@@ end

//@@ fn contains self=SplayTree
//@@ sub `( & self` => `( & mut self`
    fn contains(& mut self, key: &K) -> (ret: bool)/*@
        requires old(self).wf(), ensures final(self).wf(), final(self).comparator == old(self).comparator, final(self).view() == old(self).view(), ret <==> present(old(self).comparator, *key, old(self).view()),
    @*/ {
        self.find_key(key).is_some()
    }
//@@ end

//@@ fn get self=SplayTree
//@@ sub `( & self` => `( & mut self`
    fn get( & mut self, key: &K) -> (ret: Option<&V>) /*@
        requires old(self).wf(), ensures final(self).wf(), final(self).comparator == old(self).comparator, final(self).view() == old(self).view(), deref(ret) == val(m_get(old(self).comparator, *key, old(self).view())),
    @*/ {
        /*@ proof { lemma_cut(self.comparator, *key, self.view()); lemma_pos(self.comparator, *key, self.view()); } @*/ match ( & mut self . root ) {
            Some(ref mut root) => {
                splay(key, root, &self.comparator); /*@ proof { lemma_splayed(self.comparator, *key, ino(root.left), (root.key, root.value), ino(root.right)); } @*/
                if (self.comparator)(key, &root.key) == Ordering::Equal {
                    Some(&root.value)
                } else {
                    None
                }
            }
            None => None,
        }
    }
//@@ end

//@@ fn get_mut self=SplayTree
    fn get_mut(&mut self, key: &K) -> (ret: Option<&mut V>) /*@
        requires old(self).wf(),
        ensures
            final(self).wf(), final(self).comparator == old(self).comparator,
            ret is Some <==> present(old(self).comparator, *key, old(self).view()),
            ret is None ==> final(self).view() == old(self).view(),
            match ret {
                Some(r) => *r == old(self).view()[pos(old(self).comparator, *key, old(self).view())].1 && final(self).view() == m_insert(old(self).comparator, *key, *final(r), old(self).view()),
                None => true,
            },
    @*/ {
        /*@ proof { lemma_cut(self.comparator, *key, self.view()); lemma_pos(self.comparator, *key, self.view()); } proof { lemma_sorted_update(self.comparator, *key, self.view()); } @*/ match ( & mut self . root ) {
            Some(ref mut root) => {
                splay(key, root, &self.comparator); /*@ proof { lemma_splayed(self.comparator, *key, ino(root.left), (root.key, root.value), ino(root.right)); } @*/
                if (self.comparator)(key, &root.key) == Ordering::Equal {
                    Some(&mut root.value)
                } else {
                    None
                }
            }
            None => None,
        }
    }
//@@ end

//@@ fn find_key self=SplayTree
//@@ sub `( & self` => `( & mut self`
    fn find_key( & mut self, key: &K) -> (ret: Option<&K>) /*@
        requires old(self).wf(), ensures final(self).wf(), final(self).comparator == old(self).comparator, final(self).view() == old(self).view(), deref(ret) == (match m_get(old(self).comparator, *key, old(self).view()) { Some(p) => Some(p.0), None => None }),
    @*/ {
        /*@ proof { lemma_cut(self.comparator, *key, self.view()); lemma_pos(self.comparator, *key, self.view()); } @*/ match ( & mut self . root ) {
            Some(ref mut root) => {
                splay(key, root, &self.comparator); /*@ proof { lemma_splayed(self.comparator, *key, ino(root.left), (root.key, root.value), ino(root.right)); } @*/
                if (self.comparator)(key, &root.key) == Ordering::Equal {
                    Some(&root.key)
                } else {
                    None
                }
            }
            None => None,
        }
    }
//@@ end

//@@ fn next self=SplayTree
//@@ sub `( & self` => `( & mut self`
    fn next(& mut self, key: &K) -> (ret: Option<(&K, &V)>)/*@
        requires old(self).wf(), ensures final(self).wf(), final(self).comparator == old(self).comparator, final(self).view() == old(self).view(), deref2(ret) == m_next(old(self).comparator, *key, old(self).view()),
    @*/ {
       /*@ proof { lemma_cut(self.comparator, *key, self.view()); lemma_pos(self.comparator, *key, self.view()); }
        let ghost c = self.comparator;
        let ghost s0 = self.view();
        proof { lemma_pos(c, *key, s0); assert(self.root is None ==> s0 =~= Seq::<(K, V)>::empty()); } @*/ let mut node: &Node<K, V> = match ( & mut self . root ) {
            Some(ref mut root) => {
                splay(key, root, &self.comparator);
                root
            }
            None => return None,
        };
       /*@ let ghost mut a: Seq<(K, V)> = Seq::empty();
        let ghost mut b: Seq<(K, V)> = Seq::empty();
        proof { assert(s0 =~= a + inon(*node) + b); lemma_empty_pred::<K, V, C>(c, *key); lemma_all_not_empty::<K, V, C>(c, *key, Ordering::Less); } @*/ let mut successor: Option<(&K, &V)> = None;
        loop /*@ invariant_except_break
                s0 == a + inon(*node) + b,
            invariant
                det::<K, C>(c), c == self.comparator, cut(c, *key, s0),
                all_not(c, *key, a, Ordering::Less),
                all_side(c, *key, b, Ordering::Less),
                deref2(successor) == (if b.len() > 0 { Some(b[0]) } else { None }),
            ensures
                s0 == a + b,
            decreases *node, @*/{
            /*@ let ghost x = (node.key, node.value);
            proof {
                lemma_cut_mid(c, *key, s0, a, inon(*node), b);
                lemma_node(c, *key, ino(node.left), x, ino(node.right));
                if side(c, *key, node.key) == Ordering::Less {
                    lemma_single(c, *key, x, Ordering::Less);
                    lemma_all_side_cat(c, *key, seq![x], ino(node.right), Ordering::Less);
                    lemma_all_side_cat(c, *key, seq![x] + ino(node.right), b, Ordering::Less);
                    assert(s0 =~= a + ino(node.left) + ((seq![x] + ino(node.right)) + b));
                    b = (seq![x] + ino(node.right)) + b;
                    assert(node.left is None ==> s0 =~= a + b);
                } else {
                    lemma_all_not_single(c, *key, x, Ordering::Less);
                    lemma_all_not(c, *key, ino(node.left), Ordering::Greater, Ordering::Less);
                    lemma_all_not_cat(c, *key, ino(node.left), seq![x], Ordering::Less);
                    lemma_all_not_cat(c, *key, a, ino(node.left) + seq![x], Ordering::Less);
                    assert(s0 =~= (a + (ino(node.left) + seq![x])) + ino(node.right) + b);
                    a = a + (ino(node.left) + seq![x]);
                    assert(node.right is None ==> s0 =~= a + b);
                }
            } @*/ match (self.comparator)(key, &node.key) {
                Ordering::Less => {
                    successor = Some((&node.key, &node.value));
                    match node.left {
                        Some(ref left) => node = left,
                        None => break,
                    }
                }
                Ordering::Equal | Ordering::Greater => match node.right {
                    Some(ref right) => node = right,
                    None => break,
                },
            }
        }
        /*@ proof { lemma_split_next(c, *key, s0, a, b); } @*/ successor
    }
//@@ end

//@@ fn prev self=SplayTree
//@@ sub `( & self` => `( & mut self`
    fn prev(& mut self, key: &K) -> (ret: Option<(&K, &V)>)/*@
        requires old(self).wf(), ensures final(self).wf(), final(self).comparator == old(self).comparator, final(self).view() == old(self).view(), deref2(ret) == m_prev(old(self).comparator, *key, old(self).view()),
    @*/ {
       /*@ proof { lemma_cut(self.comparator, *key, self.view()); lemma_pos(self.comparator, *key, self.view()); }
        let ghost c = self.comparator;
        let ghost s0 = self.view();
        proof { lemma_pos(c, *key, s0); assert(self.root is None ==> s0 =~= Seq::<(K, V)>::empty()); } @*/ let mut node: &Node<K, V> = match ( & mut self . root ) {
            Some(ref mut root) => {
                splay(key, root, &self.comparator);
                root
            }
            None => return None,
        };
       /*@ let ghost mut a: Seq<(K, V)> = Seq::empty();
        let ghost mut b: Seq<(K, V)> = Seq::empty();
        proof { assert(s0 =~= a + inon(*node) + b); lemma_empty_pred::<K, V, C>(c, *key); lemma_all_not_empty::<K, V, C>(c, *key, Ordering::Greater); } @*/ let mut predecessor: Option<(&K, &V)> = None;
        loop /*@ invariant_except_break
                s0 == a + inon(*node) + b,
            invariant
                det::<K, C>(c), c == self.comparator, cut(c, *key, s0),
                all_side(c, *key, a, Ordering::Greater),
                all_not(c, *key, b, Ordering::Greater),
                deref2(predecessor) == (if a.len() > 0 { Some(a.last()) } else { None }),
            ensures
                s0 == a + b,
            decreases *node, @*/{
            /*@ let ghost x = (node.key, node.value);
            proof {
                lemma_cut_mid(c, *key, s0, a, inon(*node), b);
                lemma_node(c, *key, ino(node.left), x, ino(node.right));
                if side(c, *key, node.key) != Ordering::Greater {
                    lemma_all_not_single(c, *key, x, Ordering::Greater);
                    lemma_all_not(c, *key, ino(node.right), Ordering::Less, Ordering::Greater);
                    lemma_all_not_cat(c, *key, seq![x], ino(node.right), Ordering::Greater);
                    lemma_all_not_cat(c, *key, seq![x] + ino(node.right), b, Ordering::Greater);
                    assert(s0 =~= a + ino(node.left) + ((seq![x] + ino(node.right)) + b));
                    b = (seq![x] + ino(node.right)) + b;
                    assert(node.left is None ==> s0 =~= a + b);
                } else {
                    lemma_single(c, *key, x, Ordering::Greater);
                    lemma_all_side_cat(c, *key, ino(node.left), seq![x], Ordering::Greater);
                    lemma_all_side_cat(c, *key, a, ino(node.left) + seq![x], Ordering::Greater);
                    assert(s0 =~= (a + (ino(node.left) + seq![x])) + ino(node.right) + b);
                    a = a + (ino(node.left) + seq![x]);
                    assert(node.right is None ==> s0 =~= a + b);
                }
            } @*/ match (self.comparator)(key, &node.key) {
                Ordering::Equal | Ordering::Less => match node.left {
                    Some(ref left) => node = left,
                    None => break,
                },
                Ordering::Greater => {
                    predecessor = Some((&node.key, &node.value));
                    match node.right {
                        Some(ref right) => node = right,
                        None => break,
                    }
                }
            }
        }
        /*@ proof { lemma_split_prev(c, *key, s0, a, b); } @*/ predecessor
    }
//@@ end

//@@ fn insert self=SplayTree
    fn insert(&mut self, key: K, value: V) -> (ret: Option<V>) /*@
        requires old(self).wf(), old(self).view().len() < usize::MAX,
        ensures
            final(self).wf(), final(self).comparator == old(self).comparator,
            final(self).view() =~= m_insert(old(self).comparator, key, value, old(self).view()),
            ret == val(m_get(old(self).comparator, key, old(self).view())),
    @*/ {
        /*@ let ghost c = self.comparator;
        let ghost s0 = self.view();
        proof { lemma_cut(c, key, s0); lemma_pos(c, key, s0); lemma_sorted_ops(c, key, value, s0); } @*/ match ( & mut self . root ) {
            Some(ref mut root) => {
                splay(&key, root, &self.comparator); /*@ let ghost x0 = (root.key, root.value);
                let ghost l0 = ino(root.left);
                let ghost r0 = ino(root.right);
                proof { lemma_splayed(c, key, l0, x0, r0); } @*/
                match (self.comparator)(&key, &root.key) {
                    Ordering::Equal => {
                        let old = mem::replace(&mut root.value, value); /*@ proof { reveal_with_fuel(ino, 3); assert(ino(Some(*root)) =~= m_insert(c, key, value, s0)); } @*/
                        return Some(old);
                    }
                    Ordering::Less => {
                        let left = root.pop_left();
                        let new = Node::new_boxed(key, value, left, None);
                        let prev = mem::replace(root, new);
                        root.right = Some(prev); /*@ proof { reveal_with_fuel(ino, 3); assert(ino(Some(*root)) =~= m_insert(c, key, value, s0)); } @*/
                    }
                    Ordering::Greater => {
                        let right = root.pop_right();
                        let new = Node::new_boxed(key, value, None, right);
                        let prev = mem::replace(root, new);
                        root.left = Some(prev); /*@ proof { reveal_with_fuel(ino, 3); assert(ino(Some(*root)) =~= m_insert(c, key, value, s0)); } @*/
                    }
                }
            }
            slot => {
                *slot = Some(Node::new_boxed(key, value, None, None)); /*@ proof { assert(ino(*slot) =~= m_insert(c, key, value, s0)); } @*/
            }
        }
        self.size += 1;
        None
    }
//@@ end

//@@ fn remove self=SplayTree
    fn remove(&mut self, key: &K) -> (ret: Option<V>) /*@
        requires old(self).wf(),
        ensures
            final(self).wf(), final(self).comparator == old(self).comparator,
            final(self).view() =~= m_remove(old(self).comparator, *key, old(self).view()),
            ret == val(m_get(old(self).comparator, *key, old(self).view())),
    @*/ {
        /*@ let ghost c = self.comparator;
        let ghost s0 = self.view();
        let ghost mut x0: (K, V) = arbitrary();
        let ghost mut l0: Seq<(K, V)> = Seq::empty();
        let ghost mut r0: Seq<(K, V)> = Seq::empty();
        proof { lemma_cut(c, *key, s0); lemma_pos(c, *key, s0); lemma_sorted_remove(c, *key, s0); } @*/ match *( & mut self . root ) {
            None => {
                return None;
            }
            Some(ref mut root) => {
                splay(key, root, &self.comparator); /*@ proof {
                    x0 = (root.key, root.value);
                    l0 = ino(root.left);
                    r0 = ino(root.right);
                    lemma_splayed(c, *key, l0, x0, r0);
                    lemma_node(c, *key, l0, x0, r0);
                } @*/
                if (self.comparator)(key, &root.key) != Ordering::Equal {
                    return None;
                }
            }
        }
        let Node { left, right, value, .. } = *( & mut self . root ).take().unwrap();
        *( & mut self . root ) = match left {
            None => right,
            Some(mut node) => {
                splay(key, &mut node, &self.comparator);
                /*@ proof { lemma_disjoint_sides(c, *key, l0, ino(node.left) + seq![(node.key, node.value)], ino(node.right)); } @*/ node.right = right;
                Some(node)
            }
        };
        /*@ proof {
            assert(self.view() =~= l0 + r0);
            assert(self.view() =~= m_remove(c, *key, s0));
        } @*/ self.size -= 1;
        Some(value)
    }
//@@ end

//@@ fn min self=SplayTree
    fn min(&self) -> (ret: Option<&K>) /*@
        requires self.wf(), ensures deref(ret) == (if self.view().len() > 0 { Some(self.view()[0].0) } else { None }),
    @*/ {
        match self . min_node ( ) { Some ( node ) => Some ( &node.key ) , None => None }
    }
//@@ end

//@@ fn max self=SplayTree
    fn max(&self) -> (ret: Option<&K>) /*@
        requires self.wf(), ensures deref(ret) == (if self.view().len() > 0 { Some(self.view().last().0) } else { None }),
    @*/ {
        match self . max_node ( ) { Some ( node ) => Some ( &node.key ) , None => None }
    }
//@@ end

//@@ fn min_node self=SplayTree
    fn min_node(&self) -> (ret: Option<&Node<K, V>>) /*@
        requires self.wf(),
        ensures match ret {
            Some(n) => self.view().len() > 0 && self.view()[0] == (n.key, n.value),
            None => self.view().len() == 0,
        },
    @*/ {
        /*@ let ghost s0 = self.view(); @*/ match ( & self . root ) {
            Some(ref root) => {
                let mut node = root; /*@ proof { lemma_nonempty(**node); } @*/
                while let Some(ref left) = node.left /*@ invariant
                        s0.len() > 0, s0[0] == ino(Some(*node))[0], 
                    ensures
                        node.left is None,
                    decreases *node, @*/ {
                    /*@ proof { lemma_nonempty(**node); lemma_nonempty(**left); } @*/ node = left
                }
                /*@ proof { lemma_nonempty(**node); } @*/ Some(node)
            }
            None => None,
        }
    }
//@@ end

//@@ fn max_node self=SplayTree
    fn max_node(&self) -> (ret: Option<&Node<K, V>>) /*@
        requires self.wf(),
        ensures match ret {
            Some(n) => self.view().len() > 0 && self.view().last() == (n.key, n.value),
            None => self.view().len() == 0,
        },
    @*/ {
        /*@ let ghost s0 = self.view(); @*/ match ( & self . root ) {
            Some(ref root) => {
                let mut node = root; /*@ proof { lemma_nonempty(**node); } @*/
                while let Some(ref right) = node.right /*@ invariant
                        s0.len() > 0, s0.last() == ino(Some(*node)).last(), 
                    ensures
                        node.right is None,
                    decreases *node, @*/ {
                    /*@ proof { lemma_nonempty(**node); lemma_nonempty(**right); } @*/ node = right
                }
                /*@ proof { lemma_nonempty(**node); } @*/ Some(node)
            }
            None => None,
        }
    }
//@@ end

//@@ fn index self=SplayTree trait=Index
//@@ sub `( & self` => `( & mut self`
//@@ sub `< 'a >` => ``
//@@ sub `& 'a K` => `& K`
    fn index(& mut self, index: & K) -> (ret: &V) /*@
        requires old(self).wf(), present(old(self).comparator, *index, old(self).view()), ensures final(self).wf(), final(self).comparator == old(self).comparator, final(self).view() == old(self).view(), Some(*ret) == val(m_get(old(self).comparator, *index, old(self).view())),
    @*/ {
        self.get(index).expect("key not present in SplayMap")
    }
//@@ end

//@@ fn index_mut self=SplayTree trait=IndexMut
    fn index_mut(&mut self, index: &K) -> (ret: &mut V) /*@
        requires old(self).wf(), present(old(self).comparator, *index, old(self).view()),
        ensures
            final(self).wf(), final(self).comparator == old(self).comparator,
            Some(*ret) == val(m_get(old(self).comparator, *index, old(self).view())),
            final(self).view() == m_insert(old(self).comparator, *index, *final(ret), old(self).view()),
    @*/ {
        self.get_mut(index).expect("key not present in SplayMap")
    }
//@@ end

//@@ fn extend self=SplayTree trait=Extend
//@@ sub `IntoIterator < Item = ( K , V ) >` => `Items < ( K , V ) >`
//@@ sub `for ( k , v ) in i { $*b }` => `let mut items = i ; loop { match items . pull ( ) { Some ( ( k , v ) ) => { $*b } None => { break ; } } }`
    fn extend<I: Items < ( K , V ) >>(&mut self, i: I) /*@
        requires old(self).wf(), old(self).view().len() + i.rest().len() < usize::MAX,
        ensures
            final(self).wf(), final(self).comparator == old(self).comparator,
            final(self).view() =~= m_extend(old(self).comparator, i.rest(), i.rest().len() as int, old(self).view()),
    @*/ {
        /*@ let ghost c = self.comparator; let ghost s0 = self.view(); let ghost all = i.rest(); let ghost mut n = 0int; @*/
        let mut items = i ; loop /*@
            invariant_except_break
                items.rest() =~= all.skip(n),
            invariant
                0 <= n <= all.len(), self.wf(), self.comparator == c,
                self.view() =~= m_extend(c, all, n, s0), self.view().len() <= s0.len() + n, s0.len() + all.len() < usize::MAX,
            ensures
                n == all.len(),
            decreases all.len() - n,
        @*/ { match items . pull ( ) { Some ( ( k , v ) ) => { /*@ proof { lemma_insert_len(c, k, v, self.view()); assert(all.skip(n)[0] == all[n]); n = n + 1; } @*/
            self.insert(k, v);
        } None => { break ; } } }
    }
//@@ end

//@@ fn into_iter self=SplayTree trait=IntoIterator
//@@ sub `( self )` => `( & mut self )`
//@@ sub `Self :: IntoIter` => `IntoIter < K , V >`
    fn into_iter(&mut self) -> (ret: IntoIter < K , V >) /*@
        requires old(self).wf(), ensures ret.wf(), ret.view() == old(self).view(),
    @*/ {
        IntoIter {
            cur: ( & mut self . root ).take(),
            remaining: self.size,
        }
    }
//@@ end

//@@ fn drop self=SplayTree trait=Drop
    fn drop(&mut self) /*@
        requires old(self).wf(), ensures final(self).view() =~= Seq::<(K, V)>::empty(),
    @*/ {
        self.clear();
    }
//@@ end
}

impl<K, V> IntoIter<K, V> {
    spec fn view(&self) -> Seq<(K, V)> {
        ino(self.cur)
    }

    spec fn wf(&self) -> bool {
        self.remaining == ino(self.cur).len()
    }

//@@ fn next self=IntoIter trait=Iterator file=src/splay/tree.rs
    fn next(&mut self) -> (ret: Option<(K, V)>) /*@
        requires old(self).wf(),
        ensures
            final(self).wf(),
            old(self).view().len() == 0 ==> ret is None && final(self).view().len() == 0,
            old(self).view().len() > 0 ==> ret == Some(old(self).view()[0]) && final(self).view() =~= old(self).view().drop_first(),
    @*/ {
        /*@ let ghost s0 = self.view(); @*/ let mut cur = match self.cur.take() {
            Some(cur) => cur,
            None => return None,
        };
        loop /*@ invariant
                ino(Some(cur)) == s0, self.cur is None, self.remaining == s0.len(), s0 == old(self).view(), s0.len() > 0,
            decreases ino(cur.left).len(), @*/ {
            match cur.pop_left() {
                Some(node) => { /*@ let ghost c0 = *cur; let ghost m0 = *node; @*/
                    let mut node = node;
                    cur.left = node.pop_right();
                    node.right = Some(cur);
                    cur = node; /*@ proof { reveal_with_fuel(ino, 3); assert(ino(Some(cur)) =~= s0); } @*/
                }
                None => {
                    self.cur = cur.pop_right();
                    let node = *cur;
                    let Node { key, value, .. } = node;
                    self.remaining -= 1;
                    return Some((key, value));
                }
            }
        }
    }
//@@ end

//@@ fn next_back self=IntoIter trait=DoubleEndedIterator file=src/splay/tree.rs
    fn next_back(&mut self) -> (ret: Option<(K, V)>) /*@
        requires old(self).wf(),
        ensures
            final(self).wf(),
            old(self).view().len() == 0 ==> ret is None && final(self).view().len() == 0,
            old(self).view().len() > 0 ==> ret == Some(old(self).view().last()) && final(self).view() =~= old(self).view().drop_last(),
    @*/ {
        /*@ let ghost s0 = self.view(); @*/ let mut cur = match self.cur.take() {
            Some(cur) => cur,
            None => return None,
        };
        loop /*@ invariant
                ino(Some(cur)) == s0, self.cur is None, self.remaining == s0.len(), s0 == old(self).view(), s0.len() > 0,
            decreases ino(cur.right).len(), @*/ {
            match cur.pop_right() {
                Some(node) => { /*@ let ghost c0 = *cur; let ghost m0 = *node; @*/
                    let mut node = node;
                    cur.right = node.pop_left();
                    node.left = Some(cur);
                    cur = node; /*@ proof { reveal_with_fuel(ino, 3); assert(ino(Some(cur)) =~= s0); } @*/
                }
                None => {
                    self.cur = cur.pop_left();
                    let node = *cur;
                    let Node { key, value, .. } = node;
                    self.remaining -= 1;
                    return Some((key, value));
                }
            }
        }
    }
//@@ end

//@@ fn size_hint self=IntoIter trait=Iterator file=src/splay/tree.rs
    fn size_hint(&self) -> (ret: (usize, Option<usize>)) /*@
        requires self.wf(), ensures ret.0 == self.view().len(), ret.1 == Some(ret.0),
    @*/ {
        (self.remaining, Some(self.remaining))
    }
//@@ end

//@@ fn drop self=IntoIter trait=Drop file=src/splay/tree.rs
    fn drop(&mut self) /*@
        requires old(self).wf(), ensures final(self).wf(), final(self).view().len() == 0,
    @*/ {
        while self.next().is_some() /*@ invariant self.wf(), ensures ino(self.cur).len() == 0, decreases ino(self.cur).len(), @*/ {}
    }
//@@ end
}

// ---- set.rs -----------------------------------------------------------------------------------
//@@ struct SplaySet
struct SplaySet<T, C>
where
    C: Fn(&T, &T) -> Ordering,
{
    tree: SplayTree<T, (), C>,
}
//@@ end

impl<T, C> SplaySet<T, C>
where
    C: Fn(&T, &T) -> Ordering,
{
    spec fn view(&self) -> Seq<(T, ())> {
        ino(self.tree.root)
    }

    spec fn wf(&self) -> bool {
        self.tree.wf()
    }

//@@ fn new self=SplaySet
    fn new(comparator: C) -> (ret: SplaySet<T, C>) /*@
        requires total_order::<T, C>(comparator), ensures ret.wf(), ret.view() =~= Seq::<(T, ())>::empty(), ret.tree.comparator == comparator,
    @*/ {
        SplaySet {
            tree: SplayTree::new(comparator),
        }
    }
//@@ end

//@@ fn len self=SplaySet
    fn len(&self) -> (ret: usize) /*@
        requires self.wf(), ensures ret == self.view().len(),
    @*/ {
        self.tree.len()
    }
//@@ end

//@@ fn is_empty self=SplaySet
    fn is_empty(&self) -> (ret: bool) /*@
        requires self.wf(), ensures ret <==> self.view().len() == 0,
    @*/ {
        self.len() == 0
    }
//@@ end

//@@ fn clear self=SplaySet
    fn clear(&mut self) /*@
        requires old(self).wf(), ensures final(self).wf(), final(self).tree.comparator == old(self).tree.comparator, final(self).view() =~= Seq::<(T, ())>::empty(),
    @*/ {
        self.tree.clear()
    }
//@@ end

//@@ fn contains self=SplaySet
//@@ sub `( & self` => `( & mut self`
    fn contains(& mut self, t: &T) -> (ret: bool) /*@
        requires old(self).wf(), ensures final(self).wf(), final(self).tree.comparator == old(self).tree.comparator, final(self).view() == old(self).view(), ret <==> present(old(self).tree.comparator, *t, old(self).view()),
    @*/ {
        self.tree.contains(t)
    }
//@@ end

//@@ fn find self=SplaySet
//@@ sub `( & self` => `( & mut self`
    fn find(& mut self, t: &T) -> (ret: Option<&T>) /*@
        requires old(self).wf(), ensures final(self).wf(), final(self).tree.comparator == old(self).tree.comparator, final(self).view() == old(self).view(), deref(ret) == key_of(m_get(old(self).tree.comparator, *t, old(self).view())),
    @*/ {
        self.tree.find_key(t)
    }
//@@ end

//@@ fn next self=SplaySet
//@@ sub `( & self` => `( & mut self`
    fn next(& mut self, t: &T) -> (ret: Option<&T>) /*@
        requires old(self).wf(), ensures final(self).wf(), final(self).tree.comparator == old(self).tree.comparator, final(self).view() == old(self).view(), deref(ret) == key_of(m_next(old(self).tree.comparator, *t, old(self).view())),
    @*/ {
        match self . tree . next ( t ) { Some ( kv ) => Some ( kv.0 ) , None => None }
    }
//@@ end

//@@ fn prev self=SplaySet
//@@ sub `( & self` => `( & mut self`
    fn prev(& mut self, t: &T) -> (ret: Option<&T>) /*@
        requires old(self).wf(), ensures final(self).wf(), final(self).tree.comparator == old(self).tree.comparator, final(self).view() == old(self).view(), deref(ret) == key_of(m_prev(old(self).tree.comparator, *t, old(self).view())),
    @*/ {
        match self . tree . prev ( t ) { Some ( kv ) => Some ( kv.0 ) , None => None }
    }
//@@ end

//@@ fn insert self=SplaySet
    fn insert(&mut self, t: T) -> (ret: bool) /*@
        requires old(self).wf(), old(self).view().len() < usize::MAX,
        ensures
            final(self).wf(), final(self).tree.comparator == old(self).tree.comparator,
            final(self).view() =~= m_insert(old(self).tree.comparator, t, (), old(self).view()),
            ret <==> !present(old(self).tree.comparator, t, old(self).view()),
    @*/ {
        self.tree.insert(t, ()).is_none()
    }
//@@ end

//@@ fn remove self=SplaySet
    fn remove(&mut self, t: &T) -> (ret: bool) /*@
        requires old(self).wf(),
        ensures
            final(self).wf(), final(self).tree.comparator == old(self).tree.comparator,
            final(self).view() =~= m_remove(old(self).tree.comparator, *t, old(self).view()),
            ret <==> present(old(self).tree.comparator, *t, old(self).view()),
    @*/ {
        self.tree.remove(t).is_some()
    }
//@@ end

//@@ fn min self=SplaySet
    fn min(&self) -> (ret: Option<&T>) /*@
        requires self.wf(), ensures deref(ret) == (if self.view().len() > 0 { Some(self.view()[0].0) } else { None }),
    @*/ {
        self.tree.min()
    }
//@@ end

//@@ fn max self=SplaySet
    fn max(&self) -> (ret: Option<&T>) /*@
        requires self.wf(), ensures deref(ret) == (if self.view().len() > 0 { Some(self.view().last().0) } else { None }),
    @*/ {
        self.tree.max()
    }
//@@ end

//@@ fn extend self=SplaySet trait=Extend
//@@ sub `IntoIterator < Item = T >` => `Items < T >`
//@@ sub `for t in i { $*b }` => `let mut items = i ; loop { match items . pull ( ) { Some ( t ) => { $*b } None => { break ; } } }`
    fn extend<I: Items < T >>(&mut self, i: I) /*@
        requires old(self).wf(), old(self).view().len() + i.rest().len() < usize::MAX,
        ensures
            final(self).wf(), final(self).tree.comparator == old(self).tree.comparator,
            final(self).view() =~= m_extend(old(self).tree.comparator, i.rest().map_values(|t: T| (t, ())), i.rest().len() as int, old(self).view()),
    @*/ {
        /*@ let ghost c = self.tree.comparator; let ghost s0 = self.view(); let ghost all = i.rest(); let ghost kvs = all.map_values(|t: T| (t, ())); let ghost mut n = 0int; @*/
        let mut items = i ; loop /*@
            invariant_except_break
                items.rest() =~= all.skip(n),
            invariant
                0 <= n <= all.len(), kvs == all.map_values(|t: T| (t, ())), self.wf(), self.tree.comparator == c,
                self.view() =~= m_extend(c, kvs, n, s0), self.view().len() <= s0.len() + n, s0.len() + all.len() < usize::MAX,
            ensures
                n == all.len(),
            decreases all.len() - n,
        @*/ { match items . pull ( ) { Some ( t ) => { /*@ proof { lemma_insert_len(c, t, (), self.view()); assert(all.skip(n)[0] == all[n] && kvs[n] == (all[n], ())); n = n + 1; } @*/
            self.insert(t);
        } None => { break ; } } }
    }
//@@ end

//@@ fn into_iter self=SplaySet trait=IntoIterator
//@@ sub `( self )` => `( & mut self )`
//@@ sub `Self :: IntoIter` => `SetIntoIter < T >`
//@@ sub `IntoIter { $*x }` => `SetIntoIter { $*x }`
    fn into_iter( & mut self ) -> (ret: SetIntoIter < T >) /*@
        requires old(self).wf(), ensures ret.wf(), ret.view() == old(self).view(),
    @*/ {
        SetIntoIter { inner: self.tree.into_iter(), }
    }
//@@ end
}

//@@ struct SetIntoIter as=IntoIter file=src/splay/set.rs
//@@ sub `struct IntoIter` => `struct SetIntoIter`
//@@ sub `tree :: IntoIter` => `IntoIter`
struct SetIntoIter<T> {
    inner: IntoIter<T, ()>,
}
//@@ end

impl<T> SetIntoIter<T> {
    spec fn view(&self) -> Seq<(T, ())> {
        ino(self.inner.cur)
    }

    spec fn wf(&self) -> bool {
        self.inner.wf()
    }

//@@ fn next self=IntoIter trait=Iterator file=src/splay/set.rs
    fn next(&mut self) -> (ret: Option<T>) /*@
        requires old(self).wf(),
        ensures
            final(self).wf(),
            old(self).view().len() == 0 ==> ret is None && final(self).view().len() == 0,
            old(self).view().len() > 0 ==> ret == Some(old(self).view()[0].0) && final(self).view() =~= old(self).view().drop_first(),
    @*/ {
        match self . inner . next ( ) { Some ( p ) => Some ( p.0 ) , None => None }
    }
//@@ end

//@@ fn next_back self=IntoIter trait=DoubleEndedIterator file=src/splay/set.rs
    fn next_back(&mut self) -> (ret: Option<T>) /*@
        requires old(self).wf(),
        ensures
            final(self).wf(),
            old(self).view().len() == 0 ==> ret is None && final(self).view().len() == 0,
            old(self).view().len() > 0 ==> ret == Some(old(self).view().last().0) && final(self).view() =~= old(self).view().drop_last(),
    @*/ {
        match self . inner . next_back ( ) { Some ( (k, _) ) => Some ( k ) , None => None }
    }
//@@ end

//@@ fn size_hint self=IntoIter trait=Iterator file=src/splay/set.rs
    fn size_hint(&self) -> (ret: (usize, Option<usize>)) /*@
        requires self.wf(), ensures ret.0 == self.view().len(), ret.1 == Some(ret.0),
    @*/ {
        self.inner.size_hint()
    }
//@@ end
}

//@@ include wrap.rs

} // verus!

fn main() {}
