# Build environment of the checks (sourced by run scripts).
export HOME=/root LANG=C.UTF-8
export RUSTUP_TOOLCHAIN=1.84-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=/verif/build/target
export RUSTFLAGS="--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp --cfg hudi_verif"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
