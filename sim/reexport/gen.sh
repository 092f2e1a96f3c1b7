#!/bin/bash
# Regenerates the re-exports for the installed toolchain.
set -e
cd "$(dirname "$0")/.."
go build -o /tmp/powsim-reexport ./reexport
for x in os:os io/ioutil:ioutil path/filepath:filepath sync:sync sync/atomic:atomic time:time math/rand:rand math/rand/v2:randv2 \
  crypto/rand:crand runtime:runtime runtime/debug:debug os/user:user log:log syscall:syscall; do
  /tmp/powsim-reexport "${x%%:*}" "shim/${x##*:}"
done
( cd /repo && /tmp/powsim-reexport golang.org/x/sys/unix /verif/sim/shim/unix ) || echo "x/sys/unix: skipped"
rm -f /tmp/powsim-reexport
