#!/bin/bash
# Developer aid: min.sh PROP SEED [TARGETPROP] [SECS]: shrink one run to /tmp/m_SEED.txt
cd "$(dirname "$0")/.."
X=$(ls -t build/raftsim-* | grep -v asan | head -1)
P=$1; S=$2; T=${3:-$1}
$X gen --prop $P --seed $S > /tmp/g_$S.txt
sed -i "s/^property .*/property C$(printf %02d $T)/" /tmp/g_$S.txt
$X replay /tmp/g_$S.txt | tail -1 | cut -c1-600
$X shrink /tmp/g_$S.txt --secs ${4:-30} --out /tmp/m_$S.txt | tail -1 | cut -c1-300
$X replay /tmp/m_$S.txt --trace > /tmp/m_$S.trace 2>&1
wc -l /tmp/m_$S.txt /tmp/m_$S.trace; tail -1 /tmp/m_$S.trace | cut -c1-400
