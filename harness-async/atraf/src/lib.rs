//! Traffic shaping over async I/O: the writer task in parallel with the application, and any random choices.
mod net;
mod shaped;
