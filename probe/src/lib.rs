//! Exists only so that cargo can build the analysed crate with its dependencies from here.
