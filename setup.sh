#!/bin/bash
# builds the library under test and checks that the specification parses
cd "$(dirname "$0")" || exit 2
harness/build_lib.sh > /dev/null || exit 2
cp=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
cd spec && java -cp $cp tla2sany.SANY Trace.tla TraceWf.tla > ../.build/sany.log 2>&1 || { cat ../.build/sany.log; exit 2; }
