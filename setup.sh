#!/bin/bash
# Nothing has to be installed: every check builds its own harness from /repo's current tree.
# This only makes sure the tools the checks use are there.
set -eu
cargo +nightly-2026-05-18 --version
rustc +nightly-2026-05-18 --version
test -d /repo/hashbrown && test -d /repo/rubymap && test -d /repo/ruby_traits
