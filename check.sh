#!/bin/bash
# check.sh ID [quick|thorough]: decides one property against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
if [ ! -x "$here/bin/gosym" ] || [ -n "$(find "$here/gosym" -newer "$here/bin/gosym" -name '*.go' 2>/dev/null | head -1)" ]; then
  bash "$here/build.sh" "$here/bin/gosym" || exit 2
fi
export VERIF_DIR=$here
exec "$here/bin/gosym" check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
