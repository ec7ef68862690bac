#!/bin/bash
cd /verif/analyzer; cargo +nightly build --release --offline 2>&1 | grep -E "^error|warning: unused" -A6 | head -30; exit ${PIPESTATUS[0]}
