//! Offline stand-in; the derive lives in `facet`.
