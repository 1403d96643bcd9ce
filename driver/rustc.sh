#!/bin/sh
# The nightly compiler, except that feature detection of two dependencies' build scripts sees a stable one
# (they would turn on compiler-internal features that this nightly no longer has).
case "$CARGO_PKG_NAME" in
io-lifetimes | rustix)
	for a in "$@"; do
		[ "$a" = "-" ] && export RUSTC_BOOTSTRAP=-1
	done
	;;
esac
exec "$MIRDUMP_SYSROOT/bin/rustc" "$@"
