#!/bin/bash
# run.sh ID...: analyses /repo's current sources and decides the properties.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
if [ ! -x "$here/bin/an" ] || [ -n "$(find "$here/analyzer" -name '*.go' -newer "$here/bin/an" -print -quit)" ]; then
	bash "$here/setup.sh" || { echo "cannot build the analyzer"; exit 2; }
fi
exec "$here/bin/an" check -repo /repo -verif "$here" "$@"
