//! Stand-in: linkspace-core without its lmdb feature never calls dunce.
