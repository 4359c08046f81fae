pub use real_core::error::{codes, context, fmt, localization, tag, Error};

pub mod trace {
    /// Compiled code does not tell where it came from, so a trace only counts.
    pub struct ErrorTrace;

    impl ErrorTrace {
        pub fn from_bytecode(_: &crate::Bytecode, _: u64) -> Self {
            ErrorTrace
        }
    }
}

pub trait ResultExt {
    fn push_trace(self, trace: impl Fn() -> trace::ErrorTrace) -> Self;
    fn push_context(self, context: impl Fn() -> context::Context) -> Self;
    fn with_tags(self, tags: impl Fn() -> tag::Tags) -> Self;
}

impl<T> ResultExt for Result<T, Error> {
    fn push_trace(self, trace: impl Fn() -> trace::ErrorTrace) -> Self {
        if self.is_err() {
            trace();
        }
        self
    }

    fn push_context(self, context: impl Fn() -> context::Context) -> Self {
        self.map_err(|e| e.push_context(context()))
    }

    fn with_tags(self, tags: impl Fn() -> tag::Tags) -> Self {
        self.map_err(|e| e.with_tags(tags()))
    }
}
