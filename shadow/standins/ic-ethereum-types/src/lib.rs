//! Stand-in for dfinity/ic `ic-ethereum-types` (declared by the manifest, unused by the sources).
