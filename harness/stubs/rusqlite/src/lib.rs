// empty stand-in, see /verif/harness/Cargo.toml
