#!/bin/bash
# dev helper: extract + verify one contract file
m=$1; shift
cd /verif && build/vxtarget/debug/vx contracts/$m.vs ${VXSRC:-/repo/src} build/$m.rs build/$m.json && verus build/$m.rs --edition=2024 "$@"
