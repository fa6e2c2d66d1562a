//! Offline stand-in.
