#!/bin/bash
# builds the explorers (once, offline)
set -e
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/tools/env.sh"
vh_build C01
vh_build C08
vh_build C14
