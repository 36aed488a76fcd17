#!/bin/bash
# check.sh PROPERTY: decides one property against /repo's working tree.
# check.sh setup: builds the machinery. check.sh replay FILE: repeats a run.
cd /verif || exit 2
. sim/env.sh
umask 022
bin=$(mktemp -d) || exit 2
trap 'rm -rf "$bin"' EXIT
(cd sim/build && GOFLAGS= go build -o "$bin/simcheck" .) || exit 2
case $1 in
setup) "$bin/simcheck" ;;
replay) "$bin/simcheck" -replay "$2" ;;
*) "$bin/simcheck" -prop "$1" ;;
esac
