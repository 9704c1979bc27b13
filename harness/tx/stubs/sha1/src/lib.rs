//! Stand-in for the sha1 crate (not in the offline cache): the SHA-1 hash with
//! the Digest-style calls sip-uac uses.
