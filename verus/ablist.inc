// ---------------------------------------------------------------- component lists
/// a component list, as a value
pub type L = Seq<(Option<Ctr>, Seq<u8>)>;
pub open spec fn push_c(l: L, c: Ctr) -> L { l.push((Some(c), seq![])) }
pub open spec fn push_b(l: L, b: Seq<u8>) -> L { if l.len() == 0 { seq![(None, b)] } else { l.drop_last().push((l.last().0, l.last().1 + b)) } }
//@item crates/abe/src/eval.rs pub enum ABItem<
//@end
//@item crates/abe/src/eval.rs pub struct ABList\(
//@sub \(Vec => (pub Vec ## field made visible to specifications
//@end
//@item crates/abe/src/eval.rs pub type ABLV =
//@end
pub open spec fn cv(c: ABLV) -> (Option<Ctr>, Seq<u8>) { (c.0, c.1@) }
pub open spec fn lv(l: Seq<ABLV>) -> L { Seq::new(l.len(), |i: int| cv(l[i])) }
impl View for ABList { type V = L; open spec fn view(&self) -> L { lv(self.0@) } }
pub open spec fn push_i(l: L, i: ABItem) -> L { match i { ABItem::Ctr(c) => push_c(l, c), ABItem::Bytes(b) => push_b(l, b@) } }
impl ABList {
//@fn crates/abe/src/eval.rs push_ctr in impl ABList \{
//@mutself
//@ret r
//@contract
    ensures r@ == push_c(self@, ctr),
//@after self_\.0\.push\(\(Some\(ctr\), vec!\[\]\)\);
        assert(self_@ =~= push_c(self@, ctr)) by { assert(seq![] =~= self_.0@.last().1@); }
//@end
//@fn crates/abe/src/eval.rs push_bytes in impl ABList \{
//@mutself
//@ret r
//@contract
    ensures r@ == push_b(self@, bytes@),
//@before self_\s*\}$
        assert(self_@ =~= push_b(self@, bytes@)) by {
            assert(self_@.len() == push_b(self@, bytes@).len());
            assert forall|i: int| 0 <= i < self_@.len() implies self_@[i] == push_b(self@, bytes@)[i] by {
                assert(cv(self_.0@[i]).1 =~= push_b(self@, bytes@)[i].1);
            }
        }
//@end
//@fn crates/abe/src/eval.rs push in impl ABList \{
//@ret r
//@contract
    ensures r@ == push_i(self@, item),
//@sub b\.as_ref\(\) => b.as_slice() ## AsRef of Vec is its slice
//@end
}
