#!/bin/bash
# Builds demo.cc against the library built in the current directory and runs it.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
B=$PWD/_build/out
L="$B/libsrc__craft.a $B/libsrc_confchange__confchange.a $B/libsrc_raftpb__raftpb.a $B/libsrc_tracker__tracker.a $B/libsrc__common.a $B/libsrc_quorum__quorum.a $B/libsrc_raftpb__raft_cc_proto.a"
g++ -std=c++17 -O1 -g -w -I"$D" -I"$B/genfiles" -I"$PWD" "$D/demo.cc" -o "$T/demo" -Wl,--start-group $L -Wl,--end-group -lprotobuf -lpthread
timeout 60 "$T/demo"
