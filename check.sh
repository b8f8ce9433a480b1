#!/bin/bash
# check.sh <property> <quick|thorough>
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" || exit 3
exec "$here/sim/target/debug/termsim" check "$1" --tier "${2:-quick}" --verif "$here"
