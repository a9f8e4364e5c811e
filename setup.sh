#!/bin/bash
# Build the checkers once, so that the caches are warm.
cd "$(dirname "$0")" || exit 2
mkdir -p out/bin out/replays evidence
# No case has this name: the explorer of schedules is just built.
MC_ONLY='nothing#0' ./run.sh C14
