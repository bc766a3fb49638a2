//! nothing: its dependencies are what matters
