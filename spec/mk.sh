#!/bin/bash
# Writes <Module>Trace.tla/.cfg for the given modules.
cd "$(dirname "$0")"
for m in "$@"; do
  sed "s/HashMap/$m/g" HashMapTrace.tla > ${m}Trace.tla
  cp HashMapTrace.cfg ${m}Trace.cfg
done
