#!/usr/bin/env bash
# check.sh <property> [quick|thorough]
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
facts=$("$here/prepare.sh") || exit 2
exec python3 -m checks.main "$1" "${2:-quick}" "$facts"
