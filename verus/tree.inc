/// an expression tree, as a value
pub enum T { Colon, Slash, Bytes(Seq<u8>), Lst(Seq<T>) }
//@item crates/abe/src/ast.rs pub enum ABE
//@end
//@item crates/abe/src/ast.rs pub enum Expr
//@end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
#[repr(u8)]
//@item crates/abe/src/ast.rs pub enum Ctr
//@sub #\[serde\([^\n]*\)\] =>  ## derive attributes dropped
//@end
/// the value of a tree
pub open spec fn tv(a: ABE) -> T decreases a {
    match a { ABE::Ctr(Ctr::Colon) => T::Colon, ABE::Ctr(Ctr::FSlash) => T::Slash, ABE::Expr(Expr::Bytes(v)) => T::Bytes(v@), ABE::Expr(Expr::Lst(l)) => T::Lst(tvs(l@)) }
}
pub open spec fn tvs(l: Seq<ABE>) -> Seq<T> decreases l {
    if l.len() == 0 { seq![] } else { tvs(l.drop_last()).push(tv(l.last())) }
}
proof fn tvs_len(l: Seq<ABE>)
    ensures tvs(l).len() == l.len(), l.len() > 0 ==> tvs(l).last() == tv(l.last()),
    decreases l.len(),
{ if l.len() > 0 { tvs_len(l.drop_last()); } }

