#!/bin/bash
# Nothing is cached between runs: every check compiles /repo's working tree afresh. This verifies the tools and the specs parse.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
gcc --version | head -1
J=/opt/veriftools/tla
for m in spec/*.tla; do
    (cd spec && java -cp $J/tla2tools.jar:$J/CommunityModules-deps.jar tla2sany.SANY "$(basename "$m")" > /tmp/sany.$$ 2>&1) || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo "setup complete"
