//! Only here to have cargo resolve and check what the witness programs link to.
