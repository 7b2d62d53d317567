#!/bin/bash
# The compiler, with the switches of the seam for the crates they concern (see build.sh).
rustc=$1
shift
case "$*" in
*"--crate-name plusendi "* | *"--crate-name simcheck "*) exec "$rustc" "$@" $PLUSENDI_WITHOUT ;;
esac
exec "$rustc" "$@"
