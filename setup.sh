#!/bin/bash
# Checks that the framework builds offline; every check rebuilds what it needs.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence" "$here/replays"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
go version
