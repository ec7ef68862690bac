#!/bin/bash
# run obligations $1 in all compiler configurations
for cfg in "proc-macro|-Zallow-features=try_trait_v2,pattern" "proc-macro,span-locations|-Zallow-features=try_trait_v2,pattern" "proc-macro,span-locations|--cfg pm2_nightly" "proc-macro|--cfg pm2_nightly" "proc-macro,span-locations|--cfg pm2_nightly --cfg procmacro2_semver_exempt"; do
 echo "== $cfg"; EXTRA="${cfg#*|}" PM2_DEBUG=1 /verif/tools/an.sh "${cfg%|*}" $1 2>&1 | cut -c1-250 | grep -v "^ \|^$\|^warning" | grep -v " fails=0 weak=0 unknown=0.*trunc=false"; python3 /verif/tools/show.py | head -${2:-6}
done
