#!/bin/bash
# development: run the jobs of properties and summarise
cd /verif/symx
for p in "$@"; do
  s=$(date +%s.%N)
  timeout ${T:-900} ./target/release/symx dev $p $F > /tmp/o_$p.txt 2>/tmp/e_$p.txt
  e=$(date +%s.%N)
  echo "== $p $(echo "$e - $s" | bc)s jobs $(grep -c '^[^ ]' /tmp/o_$p.txt) slowest: $(grep '^[^ ]' /tmp/o_$p.txt | awk '{for(i=2;i<=3;i++) if($i ~ /s$/){print $i, $1; break}}' | sort -n | tail -4 | tr '\n' ';')"
  grep -B1 '^  ' /tmp/o_$p.txt | cut -c1-${W:-260} | head -${L:-30}
done
