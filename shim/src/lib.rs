//! Stand-in for the crate `crossbeam` used by basic_dsp_vector in the verification builds.
//!
//! Everything is re-exported from the real crates. Only `scope`/`thread` are wrapped: if the
//! calling thread runs under a `mc::Controller` then the spawned threads are real OS threads of
//! which exactly one runs at a time, and every hand-over is a choice made by the explorer.
//! Without a controller the calls go straight to `crossbeam_utils`.
pub use crossbeam_utils::atomic;
pub use crossbeam_utils::sync;
pub mod utils {
    pub use crossbeam_utils::Backoff;
    pub use crossbeam_utils::CachePadded;
}
pub use crossbeam_channel as channel;
pub use crossbeam_channel::select;
pub use crossbeam_deque as deque;
pub use crossbeam_epoch as epoch;
pub use crossbeam_queue as queue;
pub mod mc;
pub mod thread;
pub use thread::scope;
