//@@ global `for $w in $*a . windows ( 2 ) . chain ( $*b . windows ( 2 ) ) { $*c }` => `let mut at_a : usize = 1 ; while at_a < $*a . len ( ) { let $w = [ $*a [ at_a - 1 ] , $*a [ at_a ] ] ; $*c at_a = at_a + 1 ; } let mut at_b : usize = 1 ; while at_b < $*b . len ( ) { let $w = [ $*b [ at_b - 1 ] , $*b [ at_b ] ] ; $*c at_b = at_b + 1 ; }`
//@@ struct MonoPoly
struct MonoPoly<T: GeoNum> {
    top: LineString<T>,
    bot: LineString<T>,
}
//@@ end

spec fn pts<T: GeoNum>(c: LineString<T>) -> Seq<(real, real)> {
    ats(c.0@)
}

// strictly increasing in the sweep order
spec fn increasing(c: Seq<(real, real)>) -> bool {
    forall|i: int| 0 < i < c.len() ==> #[trigger] rises(c, i)
}

spec fn rises(c: Seq<(real, real)>, i: int) -> bool {
    lexr(c[i - 1], c[i]) == Ordering::Less
}

// two chains from a common left to a common right end
spec fn chains(t: Seq<(real, real)>, b: Seq<(real, real)>) -> bool {
    &&& t.len() >= 2 && b.len() >= 2
    &&& t[0] == b[0] && t.last() == b.last()
    &&& increasing(t) && increasing(b)
}

spec fn mono<T: GeoNum>(m: MonoPoly<T>) -> bool {
    chains(pts(m.top), pts(m.bot))
}

impl<T: GeoNum> MonoPoly<T> {
//@@ fn new self=MonoPoly rename=new_refusing asserts=may
    fn new_refusing(top: LineString<T>, bot: LineString<T>) -> (ret: Self) /*@
        ensures
            ret.top == top, ret.bot == bot, mono(ret),
    @*/ {
        rt_refuse(top.0.first() == bot.0.first());
        rt_refuse(top.0.last() == bot.0.last());
        rt_refuse(top.0.first() != top.0.last());
        let mut at_a : usize = 1 ; while at_a < top.0 . len ( ) /*@
            invariant
                1 <= at_a, forall|i: int| 0 < i < at_a && i < top.0@.len() ==> #[trigger] rises(pts(top), i),
            decreases top.0@.len() + 1 - at_a,
        @*/ { let win = [ top.0 [ at_a - 1 ] , top.0 [ at_a ] ] ; if SweepPoint::from(win[0]) >= SweepPoint::from(win[1]) {
            }
            rt_refuse(SweepPoint::from(win[0]) < SweepPoint::from(win[1])); at_a = at_a + 1 ; } let mut at_b : usize = 1 ; while at_b < bot.0 . len ( ) /*@
            invariant
                1 <= at_b, forall|i: int| 0 < i < at_b && i < bot.0@.len() ==> #[trigger] rises(pts(bot), i),
            decreases bot.0@.len() + 1 - at_b,
        @*/ { let win = [ bot.0 [ at_b - 1 ] , bot.0 [ at_b ] ] ; if SweepPoint::from(win[0]) >= SweepPoint::from(win[1]) {
            }
            rt_refuse(SweepPoint::from(win[0]) < SweepPoint::from(win[1])); at_b = at_b + 1 ; }
        Self { top, bot }
    }
//@@ end
}
