// ---------------------------------------------------------------- types, as in the sources (fields made visible)
//@item crates/pkt/src/consts.rs pub const MAX_SPACENAME_SIZE
//@end
//@item crates/pkt/src/consts.rs pub const MAX_SPACENAME_COMPONENT_SIZE
//@end
//@item crates/pkt/src/consts.rs pub const MAX_SPACE_DEPTH
//@end
pub struct SpaceBytes<X: ?Sized> { pub inner_bytes: X }
pub type Space = SpaceBytes<[u8]>;
pub type SpaceBuf = SpaceBytes<Vec<u8>>;
pub struct SpaceIter { pub space: Space }
pub struct CheckedSpaceIter { pub space: Space }
//@need crates/pkt/src/space.rs #\[repr\(transparent\)\]\s*pub struct SpaceBytes<X: \?Sized> \{\s*inner_bytes: X,\s*\}
//@need crates/pkt/src/space.rs pub type Space = SpaceBytes<\[u8\]>;
//@need crates/pkt/src/space.rs pub type SpaceBuf = SpaceBytes<Vec<u8>>;
//@need crates/pkt/src/space.rs #\[repr\(transparent\)\]\s*pub struct SpaceIter \{\s*space: Space,\s*\}
//@need crates/pkt/src/space.rs #\[repr\(transparent\)\]\s*pub struct CheckedSpaceIter \{\s*space: Space,\s*\}
pub enum SpaceError { MaxDepth, ComponentSize, ZeroComponent, TailLength, CapacityError, MissingIdx, EmptyComponentIdx, BadOffset }
pub open spec fn by(s: &Space) -> Seq<u8> { s.inner_bytes@ }
