#!/bin/bash
# bash check.sh <property> [--only stage:case]
# Builds the monitors against /repo's working tree and decides one property.
# VERIF_SEED and VERIF_TIER (quick, thorough) come from the environment.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
export CARGO_NET_OFFLINE=true
# What decides about stack use is built without optimisation.
case $1 in C15|C16|C20) profile=plain ;; *) profile=release ;; esac
if ! log=$(cargo build --profile $profile --offline --manifest-path "$here/harness/Cargo.toml" 2>&1); then
    tail -n 60 <<<"$log"
    echo "CHECK-ERROR $1: the monitors do not build against the current source"
    exit 2
fi
KULMON_VERIF="$here" "$here/harness/target/$profile/kulmon" "$@"
