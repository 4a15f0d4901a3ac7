#!/bin/bash
# Nothing to compile: the specification is checked for well-formedness and the harness imports the code under test.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
for m in PmlTrace PmcTrace MC_Wires MC_Session MC_Capture MC_Time MC_Pmc MC_Rules MC_Confs MC_Objects MC_Threads; do
  (cd spec && tla-sany $m.tla >/tmp/sany.$$ 2>&1) || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${VERIF_REPO:-/repo}" /opt/venv/bin/python -c "import procmon_parser"
echo setup ok
