//! Not available offline; the optional dependency is never enabled here.
