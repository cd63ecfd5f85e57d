// The converter program as it is in the repository
include!(concat!(env!("OUT_DIR"), "/program.rs"));
