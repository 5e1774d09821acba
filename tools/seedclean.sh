#!/bin/bash
# removes planted bugs that no spec file describes any more
cd /verif
for d in seeded/*/; do id=$(basename $d); grep -q "add(\"$id\"" tools/seeds/*.py || { echo drop $id; rm -r "/verif/seeded/$id"; }; done
