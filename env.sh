# build environment shared by every command
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
export VROOT="$PWD" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$PWD/build"
[ -d "$HOME/.cargo" ] || export HOME=/root
export PATH="$HOME/.cargo/bin:/usr/local/cargo/bin:$PATH"
