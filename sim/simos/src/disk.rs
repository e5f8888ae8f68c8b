//! Rebuilds, from a simos log, what the disk may hold after a power loss.
