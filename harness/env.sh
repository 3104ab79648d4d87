export PATH="/root/.cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=1
export CARGO_TARGET_DIR=/verif/harness/target
if grep -qw avx2 /proc/cpuinfo && grep -qw bmi2 /proc/cpuinfo && grep -qw fma /proc/cpuinfo; then
  export RUSTFLAGS="-C target-cpu=x86-64-v3"
else
  export RUSTFLAGS="-C target-cpu=x86-64-v2"
fi
