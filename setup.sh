#!/bin/bash
# Builds the simulator from the committed files and /repo's current tree.
cd "$(dirname "$0")" || exit 2
. sim/env.sh
cd sim && exec cargo build --offline
