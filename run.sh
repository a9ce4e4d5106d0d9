#!/bin/bash
# run.sh ID: decides property ID for the source in /repo; builds the analyser when it is missing or older than its source.
V=$(cd "$(dirname "$0")" && pwd)
. "$V/build.sh" || { echo "the analyser does not build"; exit 2; }
exec "$V/bin/ndcheck" -repo /repo -verif "$V" -prop "$1"
