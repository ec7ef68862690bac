#!/bin/bash
# Conformance of the library models: every function of harness/src/conf.rs is true natively; the analyser
# must find it true as well, or leave it undecided. A "fails" line here is a wrong model.
#   conform.sh          prints the counts and the wrong ones
set -e
cd /verif
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
python3 - "$d" <<'P'
import re,sys
d=sys.argv[1]
s=open('/verif/harness/src/conf.rs').read()
names=re.findall(r'^    (ob_conf_\w+)', s, re.M)
open(d+'/n.rs','w').write("#![allow(warnings)]\nmod vp { pub fn check(b: bool, _: &str) { super::OK.with(|x| x.set(b)); } }\nuse std::cell::Cell; thread_local!(static OK: Cell<bool> = const { Cell::new(false) });\nmod conf { use super::vp;\n"+s.replace('use crate::vp;','').replace('//!','//')+"\n}\nfn main() {\n"+"\n".join('    OK.with(|x| x.set(false)); conf::%s(); if !OK.with(|x| x.get()) { println!("native: %s is false"); }'%(n,n) for n in names)+"\n}\n")
P
rustc +nightly --edition 2021 -o $d/n $d/n.rs && $d/n 2>/dev/null
EXTRA="-Zallow-features=try_trait_v2,pattern --cfg pm2_conf" PM2_DEBUG=1 tools/an.sh "" ob_conf > $d/log 2>&1 || true
grep -E "^ob_conf.*fails=[1-9]" $d/log || true
grep -E "^ob_conf" $d/log | awk '{ if ($4!="fails=0") w++; else if ($6=="unknown=0" && $5=="weak=0") t++; else u++ } END { print t+0 " agree, " u+0 " undecided, " w+0 " wrong" }'
