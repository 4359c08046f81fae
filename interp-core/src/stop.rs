/// Why the simulation stops the interpreter, which has no limits of its own.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Stop {
    Steps,
    Depth,
    /// An array is changed beyond its end.
    Index,
    /// A value grows beyond what the simulation holds.
    Size,
    /// The embedder stops the activation.
    Host(usize),
}

/// Leaves the interpreter.
pub fn stop(why: Stop) -> ! {
    std::panic::resume_unwind(Box::new(why))
}
