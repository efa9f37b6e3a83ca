use std::path::PathBuf;
fn main() {
    println!("cargo:rerun-if-env-changed=VERIF_SEED");
    println!("cargo:rerun-if-env-changed=VERIF_TIER");
    println!("cargo:rerun-if-changed=build.rs");
    let seed = monlib::rng::env_u64("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let out = PathBuf::from(std::env::var_os("OUT_DIR").unwrap());
    for pid in monlib::plan::PLANNED {
        let p = monlib::plan::plan(pid, seed, thorough);
        std::fs::write(out.join(format!("{pid}.rs")), monlib::plan::emit(&p)).unwrap();
    }
    std::fs::write(out.join("P02L.rs"), monlib::lits::emit(seed, thorough)).unwrap();
    std::fs::write(out.join("P07X.rs"), monlib::exotic::emit()).unwrap();
    std::fs::write(out.join("P06X.rs"), monlib::binds::emit(seed, thorough)).unwrap();
    std::fs::write(out.join("P21X.rs"), monlib::unesc::emit(seed)).unwrap();
    std::fs::write(out.join("P09C.rs"), monlib::cases::emit()).unwrap();
    std::fs::write(out.join("P10B.rs"), monlib::bad::emit()).unwrap();
    std::fs::write(out.join("P03.rs"), monlib::rt::emit(seed, thorough)).unwrap();
}
