export CARGO_NET_OFFLINE=true LLVM_SYS_140_PREFIX=/usr/lib/llvm-14 VERIF_DIR="${VERIF_DIR:-$PWD}"
export VH_PYTHON=/opt/hugrvenv/bin/python3 PYO3_PYTHON=/opt/hugrvenv/bin/python3 PYTHONDONTWRITEBYTECODE=1
export VH_NATIVE="${VH_NATIVE:-$PWD/harness/target/debug/libvhpy.so}"
