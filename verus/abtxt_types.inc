// ---------------------------------------------------------------- the code
pub struct FitSliceErr { pub size: Option<usize>, pub got: Result<usize, &'static str> }
impl From<FitSliceErr> for ABTxtError { fn from(e: FitSliceErr) -> (r: ABTxtError) { ABTxtError::FitSlice(e) } }
impl vstd::std_specs::convert::FromSpecImpl<FitSliceErr> for ABTxtError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: FitSliceErr) -> ABTxtError { ABTxtError::FitSlice(e) }
}
//@item crates/abe/src/abtxt.rs pub const MAXB_CHAR
//@end
//@item crates/abe/src/abtxt.rs pub enum ABTxtError
//@sub #\[error\([^\n]*\)\] =>  ## derive attributes dropped
//@sub #\[from\] =>  ## derive attributes dropped
//@end
#[derive(Clone, Copy)]
//@item crates/abe/src/abtxt.rs pub enum CtrChar
//@end
//@item crates/abe/src/abtxt.rs pub enum Byte<
//@end
//@item crates/abe/src/abtxt.rs pub const STD_PLAIN_CSET
//@end
//@item crates/abe/src/abtxt.rs pub const STD_ERR_CSET
//@sub pub const STD_ERR_CSET: u32 = (.*); => pub exec const STD_ERR_CSET: u32 ensures STD_ERR_CSET == 4u32 { \1 } ## constant written as a verified exec const
//@end

pub open spec fn kind_char(k: CtrChar) -> u8 { match k { CtrChar::ForwardSlash => 47, CtrChar::Colon => 58, CtrChar::Newline => 10, CtrChar::OpenBracket => 91, CtrChar::CloseBracket => 93 } }

