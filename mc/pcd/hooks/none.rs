// Nothing is needed from inside the crate.
