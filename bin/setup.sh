#!/bin/bash
# nothing is installed; parses the specifications so that a broken framework is noticed early
set -e
cd "$(dirname "$0")/../spec"
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
  rm -f /tmp/sany.$$
done
echo ok
