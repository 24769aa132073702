#!/bin/bash
# Offline build of the framework: the harness against /repo, and a parse of every specification module.
set -e
cd "$(dirname "$0")"
mkdir -p .build evidence
(cd harness && cargo build --offline --profile release --target-dir ../.build/target && cargo build --offline --profile plain --target-dir ../.build/target)
cd spec
for m in IsaWalk TraceCalls TracePtr TraceMachine TraceLazy LazyInit Synthesis MC_Assembler MC_AbiWords MC_CodeMemory MC_Machine MC_Pointers PtrBridge GrantsBridge KeyedStore TraceStore MC_Deploy TraceDeploy Gen_Deploy MC_Grants TraceGrants Gen_Grants MC_Effects TraceEffects Gen_Effects Gen_Pointers Gen_Machine Model; do
  tla-sany "$m.tla" > /dev/null || { echo "specification $m does not parse"; exit 1; }
done
echo "setup done"
