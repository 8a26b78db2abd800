#!/bin/bash
# dev helper: build the simulator into build/t (REPO overrides the tree)
R=${REPO:-/repo}; D=${1:-/verif/build/t}; mkdir -p $D; cd $D || exit 1
F="-std=c++17 -g -O1 -DASIO_STANDALONE -DASIO_HAS_STD_CHRONO -I$R/include -I/verif/harness -pthread -Wall -Wextra -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer"
for f in engine coop sim sim_main; do clang++ $F -c /verif/harness/$f.cpp -o $f.o 2>&1 | grep -E "error|warning" & done
for f in raft_server raft_server_req_handlers raft_server_resp_handlers peer buffer cluster_config snapshot snapshot_sync_req srv_config; do clang++ $F -w -c $R/src/$f.cxx -o r_$f.o 2>&1 | grep error & done
wait; clang++ -fsanitize=address,undefined -rdynamic -pthread *.o -ldl -o simx
