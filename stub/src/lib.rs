//! Deliberately empty.
