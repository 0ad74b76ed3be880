P=$1; V=${2:-dbg}; N=${3:-40}
bad=0
one() { s=$1; S=${VERIF_BUILD:-/verif/build}/$V/sim; $S run --prop $P --seed $s --save /tmp/ex/det.$s.tr > /tmp/ex/det.$s.1; $S run --prop $P --seed $s > /tmp/ex/det.$s.2; $S replay /tmp/ex/det.$s.tr > /tmp/ex/det.$s.3; a=$(sed -n 4p /tmp/ex/det.$s.1); b=$(sed -n 4p /tmp/ex/det.$s.2); c=$(sed -n 4p /tmp/ex/det.$s.3); o=$(head -1 /tmp/ex/det.$s.1); [ "$a" = "$b" ] || echo "seed $s NONDET $o $a $b"; [ "$a" = "$c" ] || echo "seed $s REPLAY-DIFF $o $a $c"; rm -f /tmp/ex/det.$s.*; }
export -f one; export P V
seq 1 $N | xargs -P 8 -I{} bash -c 'one {}'
echo det done $P
