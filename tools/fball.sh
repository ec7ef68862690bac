#!/bin/bash
# run obligations $1 in the fallback configurations
for cfg in "|-Zallow-features=try_trait_v2,pattern" "span-locations|-Zallow-features=try_trait_v2,pattern"; do
 echo "== $cfg"; EXTRA="${cfg#*|}" PM2_DEBUG=1 /verif/tools/an.sh "${cfg%|*}" $1 2>&1 | cut -c1-250 | grep -v "^ \|^$\|^warning\|^UNKNOWN" | { [ -n "$ALL" ] && cat || grep -v " fails=0 weak=0 unknown=0.*trunc=false"; }; python3 /verif/tools/show.py | head -${2:-6}
done
