#!/bin/bash
# Builds the simulator and everything of /repo it links, from /repo's working tree.
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p target
# Cargo goes by modification times; a tree laid out anew may carry older ones, so compare contents as well.
now=$( { find /repo -path /repo/.git -prune -o -path '*/target' -prune -o \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.proto' \) -type f -print0; } | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat target/.tree 2>/dev/null)" != "$now" ]; then
  rm -f /verif/target/.tree
  (cd sim && cargo clean --offline -p goko -p pointcloud -p serve_goko -p gokosim 2>/dev/null) || true
fi
(cd sim && cargo build --offline --locked)
echo "$now" > target/.tree
