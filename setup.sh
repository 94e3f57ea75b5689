#!/bin/bash
# builds every check once, which fills the build cache
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$here/mc" || exit 1
go build -buildvcs=false -o /dev/null ./mc || exit 1
for d in checks/*/; do
  go build -buildvcs=false -o /dev/null "./$d" || exit 1
  if [ -d "${d}race" ]; then CGO_ENABLED=1 go build -race -buildvcs=false -o /dev/null "./${d}race" || exit 1; fi
done
