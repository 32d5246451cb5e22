//! Stand-in for the two items of bincode 2.0.0-rc.2 the repository uses.
pub mod enc {
    pub mod write {
        use crate::error::EncodeError;
        pub trait Writer {
            fn write(&mut self, bytes: &[u8]) -> Result<(), EncodeError>;
        }
    }
}
pub mod error {
    #[derive(Debug)]
    #[non_exhaustive]
    pub enum EncodeError {
        UnexpectedEnd,
        Other(&'static str),
        Io { inner: std::io::Error, index: usize },
    }
    impl std::fmt::Display for EncodeError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for EncodeError {}
}
