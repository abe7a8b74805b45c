// ---- monotone/chains.rs ----------------------------------------------------------------------
type Chains<T> = Vec<Chain<T>>;

fn list2<V>(a: V, b: V) -> (r: Vec<V>)
    ensures
        r@ == seq![a, b],
{
    let mut r = Vec::new();
    r.push(a);
    r.push(b);
    proof { assert(r@ =~= seq![a, b]); }
    r
}

fn list3<V>(a: V, b: V, c: V) -> (r: Vec<V>)
    ensures
        r@ == seq![a, b, c],
{
    let mut r = Vec::new();
    r.push(a);
    r.push(b);
    r.push(c);
    proof { assert(r@ =~= seq![a, b, c]); }
    r
}

// assumed: std: a Vec of chains is at most isize::MAX bytes
#[verifier::external_body]
proof fn lemma_small<T: GeoNum>(v: &Vec<Chain<T>>)
    ensures
        v@.len() < usize::MAX / 2,
{
}

// a chain as it is handed over
#[verifier::external_body]
fn taken<T: GeoNum>(c: &Chain<T>) -> (r: Chain<T>)
    ensures
        r == *c,
{
    unimplemented!()
}

// ---- lemmas over the vectors -----------------------------------------------------------------
proof fn lemma_cvs_set<T: GeoNum>(s: Seq<Chain<T>>, i: int, c: Chain<T>)
    requires
        0 <= i < s.len(),
    ensures
        cvs(s.update(i, c)) == cvs(s).update(i, cv(c)),
{
    assert(cvs(s.update(i, c)) =~= cvs(s).update(i, cv(c)));
}

proof fn lemma_cvs_push<T: GeoNum>(s: Seq<Chain<T>>, c: Chain<T>)
    ensures
        cvs(s.push(c)) == cvs(s).push(cv(c)),
{
    assert(cvs(s.push(c)) =~= cvs(s).push(cv(c)));
}

proof fn lemma_list<T: GeoNum>(s: Seq<SweepPoint<T>>)
    ensures
        forall|x: SweepPoint<T>| #[trigger] spots(s.push(x)) == spots(s).push(pt(x)),
        s.len() > 0 ==> spots(s.drop_last()) == spots(s).drop_last(),
        s.len() == 2 ==> spots(s) == seq![pt(s[0]), pt(s[1])],
        s.len() == 3 ==> spots(s) == seq![pt(s[0]), pt(s[1]), pt(s[2])],
{
    assert forall|x: SweepPoint<T>| #[trigger] spots(s.push(x)) == spots(s).push(pt(x)) by {
        assert(spots(s.push(x)) =~= spots(s).push(pt(x)));
    }
    if s.len() > 0 {
        assert(spots(s.drop_last()) =~= spots(s).drop_last());
    }
    if s.len() == 2 {
        assert(spots(s) =~= seq![pt(s[0]), pt(s[1])]);
    }
    if s.len() == 3 {
        assert(spots(s) =~= seq![pt(s[0]), pt(s[1]), pt(s[2])]);
    }
}

// the chain that has just moved on from p
spec fn onto(s: Seq<Cv>, c: int, p: Spot) -> bool {
    &&& 0 <= c < s.len()
    &&& !s[c].done && s[c].path.len() >= 3
    &&& s[c].path[s[c].path.len() - 2] == p && s[c].path.last() != p
}

// an open chain whose last step starts at q
spec fn from(s: Seq<Cv>, i: int, q: Spot) -> bool {
    &&& 0 <= i < s.len()
    &&& !s[i].done && s[i].path.len() >= 2
    &&& s[i].path[s[i].path.len() - 2] == q
}

// the open chains before n that end at p, in order
spec fn waiting(s: Seq<Cv>, v: Seq<usize>, n: int, p: Spot) -> bool {
    &&& forall|k: int| 0 <= k < v.len() ==> #[trigger] v[k] < n && v[k] < s.len() && ends_at(s[v[k] as int], p)
    &&& forall|k: int, j: int| 0 <= k < j < v.len() ==> #[trigger] v[k] < #[trigger] v[j]
    &&& forall|i: int| 0 <= i < n && #[trigger] ends_at(s[i], p) ==> exists|k: int| 0 <= k < v.len() && #[trigger] v[k] == i
}

proof fn lemma_pass(s: Seq<Cv>, v: Seq<usize>, n: int, p: Spot)
    requires
        waiting(s, v, n, p),
        0 <= n < s.len(),
        !ends_at(s[n], p),
    ensures
        waiting(s, v, n + 1, p),
{
}

proof fn lemma_note(s: Seq<Cv>, v: Seq<usize>, n: usize, p: Spot)
    requires
        waiting(s, v, n as int, p),
        0 <= n < s.len(),
        ends_at(s[n as int], p),
    ensures
        waiting(s, v.push(n), n + 1, p),
{
    let w = v.push(n);
    assert(w[v.len() as int] == n);
    assert forall|i: int| 0 <= i < n + 1 && #[trigger] ends_at(s[i], p) implies exists|k: int| 0 <= k < w.len() && #[trigger] w[k] == i by {
        if i < n {
            let k = choose|k: int| 0 <= k < v.len() && #[trigger] v[k] == i;
            assert(w[k] == i);
        }
    }
}

proof fn lemma_waiting(s: Seq<Cv>, v: Seq<usize>, p: Spot)
    requires
        waiting(s, v, s.len() as int, p),
        v.len() == 2,
    ensures
        v[0] < v[1] < s.len(),
        ends_at(s[v[0] as int], p) && ends_at(s[v[1] as int], p),
        forall|i: int| 0 <= i < s.len() && i != v[0] && i != v[1] ==> !ends_at(#[trigger] s[i], p),
{
    assert forall|i: int| 0 <= i < s.len() && i != v[0] && i != v[1] implies !ends_at(#[trigger] s[i], p) by {
        if ends_at(s[i], p) {
            let k = choose|k: int| 0 <= k < v.len() && #[trigger] v[k] == i;
        }
    }
}

// a chain that ends at p, or is finished
spec fn waits(s: Seq<Cv>, i: int, p: Spot) -> bool {
    &&& 0 <= i < s.len()
    &&& s[i].done || ends_at(s[i], p)
}

proof fn lemma_waits(s: Seq<Cv>, v: Seq<usize>, p: Spot)
    requires
        waiting(s, v, s.len() as int, p),
    ensures
        forall|k: int| 0 <= k < v.len() ==> waits(s, #[trigger] v[k] as int, p),
{
}

proof fn lemma_upper(s: Seq<Cv>, had: Seq<(usize, usize)>, pairs: Seq<(usize, usize)>, n: usize)
    requires
        uppers(s, had, n as int),
        0 <= n < s.len(),
        s[n as int].w is Clockwise ==> pairs.len() == had.len() + 1 && pairs.drop_last() == had && pairs.last().0 == n && pairs.last().1 == s[n as int].other,
        !(s[n as int].w is Clockwise) ==> pairs == had,
    ensures
        uppers(s, pairs, n + 1),
{
    assert forall|k: int| 0 <= k < pairs.len() implies upper(s, #[trigger] pairs[k], n + 1) by {
        if k < had.len() {
            assert(pairs[k] == had[k]);
            assert(upper(s, had[k], n as int));
        }
    }
    assert forall|k: int, j: int| 0 <= k < j < pairs.len() implies (#[trigger] pairs[k]).0 < (#[trigger] pairs[j]).0 by {
        assert(pairs[k] == had[k] && upper(s, had[k], n as int));
        if j < had.len() {
            assert(pairs[j] == had[j]);
        }
    }
    assert forall|i: int| 0 <= i < n + 1 && (#[trigger] s[i]).w is Clockwise implies exists|k: int| 0 <= k < pairs.len() && (#[trigger] pairs[k]).0 == i by {
        if i < n {
            let k = choose|k: int| 0 <= k < had.len() && (#[trigger] had[k]).0 == i;
            assert(pairs[k] == had[k]);
        } else {
            assert(pairs[had.len() as int].0 == n);
        }
    }
}

//@@ fn monotone_chains asserts=all
//@@ sub `Box :: pin ( $*x )` => `$*x`
//@@ sub `for event in sweep { $*b }` => `let mut sweep = sweep ; loop { let event = match sweep . process_event ( ) { Some ( event ) => event , None => { break ; } } ; $*b }`
//@@ sub `for link in event . links { $*b }` => `let mut at_link : usize = 0 ; while at_link < event . links . len ( ) { let link = event . links [ at_link ] ; $*b at_link = at_link + 1 ; }`
//@@ sub `FromIterator :: from_iter ( [ $a , $b ] )` => `list2 ( $a , $b )`
//@@ sub `FromIterator :: from_iter ( [ $a , $b , $c ] )` => `list3 ( $a , $b , $c )`
//@@ sub `chains . extend ( [ $*a , $*b ] )` => `chains . push ( $*a ) ; chains . push ( $*b )`
//@@ sub `let ( idx , chain ) = chains . iter_mut ( ) . enumerate ( ) . find ( | $*c | { $*p } ) . expect ( $*m ) ;` => `let mut idx : usize = 0 ; loop { if idx >= chains . len ( ) { break ; } let ch = & chains [ idx ] ; if $*p { break ; } idx = idx + 1 ; } rt_assert ( idx < chains . len ( ) ) ; let chain = & mut chains [ idx ] ;`
//@@ sub `let num = chains . iter_mut ( ) . enumerate ( ) . filter ( | $*c | { $*p } ) . map ( | ( i , ch ) | { $*b } ) . count ( ) ;` => `let mut num : usize = 0 ; let mut i : usize = 0 ; while i < chains . len ( ) { let hit = { let ch = & chains [ i ] ; $*p } ; if hit { let ch = & mut chains [ i ] ; $*b num = num + 1 ; } i = i + 1 ; }`
//@@ sub `let prevs : Vec < usize > = chains . iter ( ) . enumerate ( ) . filter_map ( | ( i , ch ) | { if $*p { Some ( i ) } else { None } } ) . collect ( ) ;` => `let mut prevs : Vec < usize > = Vec :: new ( ) ; let mut i : usize = 0 ; while i < chains . len ( ) { let ch = & chains [ i ] ; if $*p { prevs . push ( i ) ; } i = i + 1 ; }`
//@@ sub `let ( idx , chain ) = if` => `let idx = if`
//@@ sub `( prevs [ 0 ] , & mut chains [ prevs [ 0 ] ] )` => `prevs [ 0 ]`
//@@ sub `( ccw_idx , & mut chains [ ccw_idx ] )` => `ccw_idx`
//@@ sub `( cw_idx , & mut chains [ cw_idx ] )` => `cw_idx`
//@@ sub `let old_next = chain . pop ( ) ;` => `let chain = & mut chains [ idx ] ; let old_next = chain . pop ( ) ;`
//@@ sub `let looks = SmallVec :: < [ usize ; 8 ] > :: from_iter ( chains . iter ( ) . enumerate ( ) . filter_map ( | ( idx , chain ) | { if $*p { None } else { Some ( idx ) } } , ) ) ;` => `let mut looks : Vec < usize > = Vec :: new ( ) ; let mut idx : usize = 0 ; while idx < chains . len ( ) { let chain = & chains [ idx ] ; if $*p { } else { looks . push ( idx ) ; } idx = idx + 1 ; }`
//@@ sub `for idx in looks { $*b }` => `let mut at_look : usize = 0 ; while at_look < looks . len ( ) { let idx = looks [ at_look ] ; at_look = at_look + 1 ; $*b }`
//@@ sub `let mut pairs = vec ! [ ] ; let mut lines : Vec < _ > = chains . into_iter ( ) . enumerate ( ) . map ( | ( i , chain ) | { $*b chain } ) . map ( LineString :: from ) . collect ( ) ;` => `let mut pairs : Vec < ( usize , usize ) > = Vec :: new ( ) ; let mut lines : Vec < LineString < T > > = Vec :: new ( ) ; let mut i : usize = 0 ; while i < chains . len ( ) { let chain = & chains [ i ] ; $*b lines . push ( LineString :: from_chain ( taken ( chain ) ) ) ; i = i + 1 ; }`
//@@ sub `pairs . into_iter ( ) . map ( | ( topdx , botdx ) | { $*b } ) . collect ( )` => `let mut pieces : Vec < MonoPoly < T > > = Vec :: new ( ) ; let mut at_pair : usize = 0 ; while at_pair < pairs . len ( ) { let ( topdx , botdx ) = pairs [ at_pair ] ; let piece = { $*b } ; pieces . push ( piece ) ; at_pair = at_pair + 1 ; } pieces`
//@@ sub `vec ! [ ]` => `Vec :: new ( )`
//@@ sub `MonoPoly :: new` => `MonoPoly :: new_refusing`
//@@ sub `rt_refuse ( root == event . pt )` => `rt_assert ( root == event . pt )`
//@@ sub `rt_refuse ( curr == event . pt )` => `rt_assert ( curr == event . pt )`
//@@ sub `rt_refuse ( next == event . pt )` => `rt_assert ( next == event . pt )`
//@@ sub `rt_refuse ( sink == event . pt )` => `rt_assert ( sink == event . pt )`
//@@ sub `rt_refuse ( ch1 . done ( ) == ch2 . done ( ) )` => `rt_assert ( ch1 . done ( ) == ch2 . done ( ) )`
//@@ sub `rt_refuse ( chains [ curr_idx ] . next ( ) == chains [ pair ] . next ( ) )` => `rt_assert ( chains [ curr_idx ] . next ( ) == chains [ pair ] . next ( ) )`
fn monotone_chains<T: GeoNum>(poly: &Polygon<T>) -> (ret: Vec<MonoPoly<T>>) /*@
    ensures
        forall|k: int| 0 <= k < ret@.len() ==> mono(#[trigger] ret@[k]),
        forall|e: (Spot, Spot)| #[trigger] gains(ret@, e) == bal(edges(*poly), e),
@*/ {
    let mut chains = Chains::<T>::new();
    let finalize_pair = |p1: &Chain<T>, p2: &Chain<T>| {
        rt_refuse(p1.interior() != p2.interior());
        let (p1, p2) = if p1.interior() == &WindingOrder::Clockwise {
            (p1, p2)
        } else {
            (p2, p1)
        };
    };
    let sweep = Sweep::from_polygon(poly);
    /*@ let ghost goal: Goal = |e: (Spot, Spot)| bal(edges(*poly), e);
    proof {
        let c = cvs(chains@);
        assert forall|l: Look| #[trigger] n_look(c, l) == 0 by { }
        assert forall|q: Spot| #[trigger] balance(c, q) == 0 by { }
        assert forall|e: (Spot, Spot)| #[trigger] tally(c, e) == 0 by { }
    } @*/
    let mut sweep = sweep ; loop /*@
        invariant
            sound(sweep),
            ready(cvs(chains@), rights(sweep.events@, sweep.segments@), lefts(sweep.events@, sweep.segments@), due(sweep.events@), goal),
            goal == (|e: (Spot, Spot)| bal(edges(*poly), e)),
            forall|p1: &Chain<T>, p2: &Chain<T>| #[trigger] call_requires(finalize_pair, (p1, p2)),
        ensures
            sweep.events@.len() == 0,
        decreases sweep.events@.len(),
    @*/ { /*@ let ghost was = sweep; @*/ let event = match sweep . process_event ( ) { Some ( event ) => event , None => { break ; } } ; let mut curr_idx = None;
        /*@ let ghost now: Now<T> = happened(was, event, sweep);
        let ghost p = now.p;
        proof { lemma_enter(cvs(chains@), now, goal); } @*/
        let pt = event.pt;
        let ty = event.ty;
        let mut at_link : usize = 0 ; while at_link < event . links . len ( ) /*@
            invariant
                at_link <= event.links@.len(),
                now.ls == event.links@, now.p == xy(event.pt), now.ty == event.ty, ty == event.ty, p == now.p,
                told(now),
                midway(cvs(chains@), at_link as int, now, goal),
                curr_idx matches Some(c) ==> at_link == event.links@.len() && onto(cvs(chains@), c as int, p),
            decreases event.links@.len() - at_link,
        @*/ { let link = event . links [ at_link ] ; /*@ let ghost a = cvs(chains@); let ghost before = chains@; let ghost k = at_link as int; proof { lemma_small(&chains); } @*/ match link {
                Link::Start { root, top, bot } => {
                    rt_assert(root == event.pt);
                    let tdx = chains.len();
                    let bdx = tdx + 1;
                    let top_chain = Chain::new(
                        WindingOrder::Clockwise,
                        bdx,
                        list2 ( root , top ),
                    );
                    let bot_chain = Chain::new(
                        WindingOrder::CounterClockwise,
                        tdx,
                        list2 ( root , bot ),
                    );
                    /*@ proof {
                        lemma_list(top_chain.coords@);
                        lemma_list(bot_chain.coords@);
                        lemma_cvs_push(chains@, top_chain);
                        lemma_cvs_push(chains@.push(top_chain), bot_chain);
                        lemma_start(a, cv(top_chain), cv(bot_chain), now, goal);
                    } @*/
                    chains . push ( top_chain ) ; chains . push ( bot_chain );
                }
                Link::Continue {
                    prev,
                    curr,
                    next,
                    interior: _,
                } => {
                    rt_assert(curr == event.pt);
                    let mut idx : usize = 0 ; loop /*@
                        invariant
                            idx <= chains@.len(), in_pairs(cvs(chains@)),
                            forall|j: int| 0 <= j < idx ==> !(ends_at(#[trigger] cvs(chains@)[j], xy(curr)) && cvs(chains@)[j].path[cvs(chains@)[j].path.len() - 2] == xy(prev)),
                        ensures
                            idx < chains@.len() ==> ends_at(cvs(chains@)[idx as int], xy(curr)) && cvs(chains@)[idx as int].path[cvs(chains@)[idx as int].path.len() - 2] == xy(prev),
                        decreases chains@.len() - idx,
                    @*/ { if idx >= chains . len ( ) { break ; } /*@ proof { assert(pair_ok(cvs(chains@), idx as int)); } @*/ let ch = & chains [ idx ] ; if !ch.done() && ch.next() == curr && ch.curr() == prev { break ; } idx = idx + 1 ; } /*@ proof { let f = lemma_found(cvs(chains@), onward(now)); assert(ends_at(cvs(chains@)[f], xy(curr))); } @*/ rt_assert ( idx < chains . len ( ) ) ; let chain = & mut chains [ idx ] ;
                    curr_idx = Some(idx);
                    chain.advance(next);
                    /*@ proof {
                        lemma_continue(a, idx as int, k, now, goal);
                        lemma_list(before[idx as int].coords@);
                        lemma_cvs_set(before, idx as int, chains@[idx as int]);
                        assert(cv(chains@[idx as int]) == moved(a[idx as int], xy(next)));
                        assert(pair_ok(a, idx as int));
                    } @*/
                }
                Link::Merge { prev, next, limbs } => {
                    rt_assert(next == event.pt);
                    /*@ let ghost m = xy(prev);
                    let ghost mut up = 0int;
                    let ghost mut down = 0int;
                    proof { lemma_merge_ok(now, k, m, limbs); lemma_draw_first(a, k, m, limbs, now, goal); } @*/
                    let mut num : usize = 0 ; let mut i : usize = 0 ; while i < chains . len ( ) /*@
                        invariant
                            told(now), drawing(now, k, m, limbs), m == xy(prev), xy(next) == p, p == now.p, ty == now.ty,
                            drawn(a, cvs(chains@), i as int, m, now, limbs, up, down),
                            num == up + down, num <= i <= chains@.len(),
                        decreases chains@.len() - i,
                    @*/ { /*@ let ghost mid = chains@; proof { assert(pair_ok(cvs(mid), i as int)); lemma_merge_ok(now, k, m, limbs); } @*/ let hit = { let ch = & chains [ i ] ; !ch.done() && ch.next() == prev } ; if hit { let ch = & mut chains [ i ] ; ch.advance(next);
                            if (match ty { VertexType::Split => true, _ => false }) {
                                if ch.interior() == &WindingOrder::Clockwise {
                                    let bot = limbs.unwrap().1;
                                    ch.advance(bot);
                                } else {
                                    let top = limbs.unwrap().0;
                                    ch.advance(top);
                                }
                            } num = num + 1 ; /*@ proof {
                        let c = cvs(mid)[i as int];
                        lemma_draw(a, cvs(mid), i as int, k, m, limbs, now, up, down);
                        up = up + one(c.w is Clockwise);
                        down = down + one(c.w is CounterClockwise);
                        lemma_list(mid[i as int].coords@);
                        lemma_list(mid[i as int].coords@.push(next));
                        assert(cv(chains@[i as int]) == draw(c, now, limbs));
                        lemma_cvs_set(mid, i as int, chains@[i as int]);
                    } @*/ } /*@ else { proof { lemma_draw_skip(a, cvs(chains@), i as int, k, m, limbs, now, up, down); } } @*/ i = i + 1 ; }
                    rt_refuse(num == 2); /*@ proof { lemma_drawn(a, cvs(chains@), k, m, limbs, now, goal, up, down); } @*/
                }
                Link::Split {
                    prev,
                    next,
                    top,
                    bot,
                } => {
                    rt_assert(next == event.pt);
                    let mut prevs : Vec < usize > = Vec :: new ( ) ; let mut i : usize = 0 ; while i < chains . len ( ) /*@
                        invariant
                            i <= chains@.len(), in_pairs(cvs(chains@)),
                            forall|j: int| 0 <= j < prevs@.len() ==> from(cvs(chains@), #[trigger] prevs@[j] as int, xy(prev)),
                        decreases chains@.len() - i,
                    @*/ { /*@ proof { assert(pair_ok(cvs(chains@), i as int)); } @*/ let ch = & chains [ i ] ; if !ch.done() && ch.curr() == prev { prevs . push ( i ) ; } i = i + 1 ; }
                    /*@ proof { assert forall|j: int| 0 <= j < prevs@.len() implies #[trigger] pair_ok(a, prevs@[j] as int) by { assert(from(a, prevs@[j] as int, xy(prev))); } } @*/
                    let idx = if prevs.len() == 1 {
                        prevs [ 0 ]
                    } else if prevs.len() == 2 {
                        let (ccw_idx, cw_idx) =
                            if chains[prevs[0]].interior() == &WindingOrder::CounterClockwise {
                                (prevs[0], prevs[1])
                            } else {
                                rt_refuse(
                                    chains[prevs[1]].interior() ==
                                    &WindingOrder::CounterClockwise);
                                (prevs[1], prevs[0])
                            };
                        if orient2d(
                            next.coord(),
                            prev.coord(),
                            chains[ccw_idx].next().coord(),
                        ) == Orientation::CounterClockwise
                        {
                            ccw_idx
                        } else {
                            cw_idx
                        }
                    } else {
                        rt_stop();
                    };
                    /*@ proof { assert(from(a, idx as int, xy(prev))); assert(pair_ok(a, idx as int)); } @*/ let chain = & mut chains [ idx ] ; let old_next = chain . pop ( ) ;
                    chain.advance(next);
                    let other = if chain.interior() == &WindingOrder::Clockwise {
                        chain.advance(bot);
                        top
                    } else {
                        chain.advance(top);
                        bot
                    };
                    let chain_interior = chain.interior(). dup ( );
                    let tdx = chains.len();
                    let bdx = tdx + 1;
                    let chain1 = Chain::new(
                        chain_interior. dup ( ),
                        bdx,
                        list2 ( prev , old_next ),
                    );
                    let chain2 = Chain::new(
                        winding_inverse(chain_interior),
                        tdx,
                        list3 ( prev , next , other ),
                    );
                    /*@ proof {
                        let o = before[idx as int];
                        let c = chains@[idx as int];
                        lemma_list(o.coords@);
                        lemma_list(o.coords@.drop_last());
                        lemma_list(o.coords@.drop_last().push(next));
                        lemma_list(chain1.coords@);
                        lemma_list(chain2.coords@);
                        lemma_cvs_set(before, idx as int, c);
                        lemma_cvs_push(chains@, chain1);
                        lemma_cvs_push(chains@.push(chain1), chain2);
                        lemma_split(a, idx as int, cv(c), cv(chain1), cv(chain2), now, goal);
                    } @*/
                    chains . push ( chain1 ) ; chains . push ( chain2 );
                }
                Link::End {
                    top: _,
                    bot: _,
                    sink,
                } => {
                    rt_assert(sink == event.pt);
                }
            } at_link = at_link + 1 ; }
        /*@ proof { lemma_leave(cvs(chains@), now, goal); } @*/
        let mut looks : Vec < usize > = Vec :: new ( ) ; let mut idx : usize = 0 ; while idx < chains . len ( ) /*@
            invariant
                idx <= chains@.len(), in_pairs(cvs(chains@)), p == xy(pt),
                waiting(cvs(chains@), looks@, idx as int, p),
            decreases chains@.len() - idx,
        @*/ { /*@ proof { assert(pair_ok(cvs(chains@), idx as int)); } let ghost had = looks@; @*/ let chain = & chains [ idx ] ; if chain.done() || chain.next() != pt { /*@ proof { lemma_pass(cvs(chains@), had, idx as int, p); } @*/ } else { looks . push ( idx ) ; /*@ proof { lemma_note(cvs(chains@), had, idx, p); } @*/ } idx = idx + 1 ; }
        rt_refuse(looks.len() % 2 == 0);
        match curr_idx {
            Some(curr_idx) if !looks.is_empty() => {
                rt_refuse(looks.len() == 2);
                /*@ proof { lemma_waiting(cvs(chains@), looks@, p); } @*/ let (pair, other) = if chains[looks[0]].other() == curr_idx {
                    (looks[0], looks[1])
                } else if chains[looks[1]].other() == curr_idx {
                    (looks[1], looks[0])
                } else {
                    rt_stop();
                };
                /*@ let ghost s = cvs(chains@);
                let ghost before = chains@;
                proof {
                    lemma_waiting(s, looks@, p);
                    assert(pair_ok(s, looks@[0] as int) && pair_ok(s, looks@[1] as int) && pair_ok(s, curr_idx as int));
                    lemma_reduce(s, curr_idx as int, pair as int, other as int, p, now.r1, now.l1, now.d1, goal);
                } @*/ let new_next = chains[curr_idx].pop();
                rt_assert(chains[curr_idx].next() == chains[pair].next());
                chains[curr_idx].finish();
                chains[pair].finish();
                finalize_pair(&chains[curr_idx], &chains[pair]);
                chains[other].advance(new_next);
                /*@ proof {
                    let c = curr_idx as int;
                    let i = pair as int;
                    let j = other as int;
                    lemma_list(before[c].coords@);
                    lemma_list(before[j].coords@);
                    assert(cv(chains@[c]) == given_up(s[c]) && cv(chains@[i]) == finished(s[i]) && cv(chains@[j]) == moved(s[j], s[c].path.last()));
                    assert(cvs(chains@) =~= s.update(c, given_up(s[c])).update(i, finished(s[i])).update(j, moved(s[j], s[c].path.last())));
                } @*/
            }
            None if !looks.is_empty() => {
                rt_refuse(looks.len() % 2 == 0);
                /*@ proof { lemma_waits(cvs(chains@), looks@, p); } @*/
                let mut at_look : usize = 0 ; while at_look < looks . len ( ) /*@
                    invariant
                        at_look <= looks@.len(),
                        ready(cvs(chains@), now.r1, now.l1, now.d1, goal), !now.d1.contains(p),
                        forall|k: int| 0 <= k < looks@.len() ==> waits(cvs(chains@), #[trigger] looks@[k] as int, p),
                        forall|p1: &Chain<T>, p2: &Chain<T>| #[trigger] call_requires(finalize_pair, (p1, p2)),
                    decreases looks@.len() - at_look,
                @*/ { /*@ let ghost s = cvs(chains@); @*/ let idx = looks [ at_look ] ; at_look = at_look + 1 ; /*@ proof { assert(waits(s, idx as int, p)); assert(pair_ok(s, idx as int)); assert(pair_ok(s, s[idx as int].other)); } @*/ let ch1 = &chains[idx];
                    let jdx = ch1.other();
                    let ch2 = &chains[jdx];
                    rt_assert(ch1.done() == ch2.done());
                    if ch1.done() {
                        continue;
                    }
                    if ch1.next() == ch2.next() {
                        chains[idx].finish();
                        chains[jdx].finish();
                        finalize_pair(&chains[idx], &chains[jdx]);
                        /*@ proof {
                            lemma_meet(s, idx as int, p, now.r1, now.l1, now.d1, goal);
                            assert(cvs(chains@) =~= s.update(idx as int, finished(s[idx as int])).update(jdx as int, finished(s[jdx as int])));
                            assert forall|k: int| 0 <= k < looks@.len() implies waits(cvs(chains@), #[trigger] looks@[k] as int, p) by {
                                assert(waits(s, looks@[k] as int, p));
                            }
                        } @*/
                    } }
            }
            _ => {}
        } }
    let mut pairs : Vec < ( usize , usize ) > = Vec :: new ( ) ; let mut lines : Vec < LineString < T > > = Vec :: new ( ) ; /*@ let ghost s = cvs(chains@); proof { lemma_none(sweep.events@, sweep.segments@); lemma_small(&chains); } @*/ let mut i : usize = 0 ; while i < chains . len ( ) /*@
            invariant
                i <= chains@.len(), s == cvs(chains@), lines@.len() == i, in_pairs(s), pairs@.len() <= i,
                uppers(s, pairs@, i as int),
                forall|j: int| 0 <= j < i ==> pts(#[trigger] lines@[j]) == s[j].path,
            decreases chains@.len() - i,
        @*/ { /*@ let ghost had = pairs@; proof { assert(pair_ok(s, i as int)); } @*/ let chain = & chains [ i ] ; rt_refuse(chain.done());
            if chain.interior() == &WindingOrder::Clockwise {
                pairs.push((i, chain.other()))
            } /*@ proof { if s[i as int].w is Clockwise { assert(pairs@.drop_last() =~= had); } lemma_upper(s, had, pairs@, i); } @*/ lines . push ( LineString :: from_chain ( taken ( chain ) ) ) ; i = i + 1 ; }
    rt_refuse(pairs.len() * 2 == lines.len());
    let mut pieces : Vec < MonoPoly < T > > = Vec :: new ( ) ; let mut at_pair : usize = 0 ;
    /*@ proof {
        assert(with_lines(s, lines@) =~= s);
        assert forall|j: int| 0 <= j < pairs@.len() implies #[trigger] taken_ok(s, pairs@, lines@, j, 0) by {
            assert(upper(s, pairs@[j], s.len() as int) && pair_ok(s, pairs@[j].0 as int));
        }
    } @*/
    while at_pair < pairs . len ( ) /*@
        invariant
            at_pair <= pairs@.len(), in_pairs(s), uppers(s, pairs@, s.len() as int),
            taking(s, pairs@, lines@, at_pair as int),
            forall|e: (Spot, Spot)| #[trigger] tally(with_lines(s, lines@), e) + gains(pieces@, e) == goal(e),
            forall|k: int| 0 <= k < pieces@.len() ==> mono(#[trigger] pieces@[k]),
        decreases pairs@.len() - at_pair,
    @*/ { /*@ let ghost had = lines@; let ghost made = pieces@; proof { let q = pairs@[at_pair as int]; assert(upper(s, q, s.len() as int) && pair_ok(s, q.0 as int)); assert(taken_ok(s, pairs@, lines@, at_pair as int, at_pair as int)); } @*/ let ( topdx , botdx ) = pairs [ at_pair ] ; let piece = { let top_ls = std::mem::replace(&mut lines[topdx], LineString(Vec :: new ( )));
            let bot_ls = std::mem::replace(&mut lines[botdx], LineString(Vec :: new ( )));
            MonoPoly :: new_refusing(top_ls, bot_ls) } ; pieces . push ( piece ) ; /*@ proof { lemma_take(s, pairs@, had, at_pair as int, lines@[topdx as int], lines@[botdx as int], made, piece); assert(lines@ =~= had.update(topdx as int, lines@[topdx as int]).update(botdx as int, lines@[botdx as int])); } @*/ at_pair = at_pair + 1 ; }
    /*@ proof {
        assert forall|e: (Spot, Spot)| #[trigger] gains(pieces@, e) == bal(edges(*poly), e) by {
            lemma_taken(s, pairs@, lines@, e);
        }
    } @*/
    pieces
}
//@@ end
