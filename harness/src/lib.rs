//! Replay / bounded stand-in engine.  Independent of /repo's code: it has its
//! own mapblock codec, its own geometry and its own statement of what each
//! command must do.
pub mod codec;
pub mod gen;
pub mod oracle;
pub mod run;
