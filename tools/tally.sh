# tally PROP SEED FROM TO : run each case separately
p=$1; s=$2; a=$3; b=$4; H=${H:-/tmp/hb/h}
seq $a $b | xargs -P 8 -I{} sh -c "$H gen $p $s {} > /tmp/w/$p.{}.txt; timeout 100 $H replay /tmp/w/$p.{}.txt > /tmp/w/$p.{}.out 2>&1 || (echo -n '{} '; sed -n '2p' /tmp/w/$p.{}.txt | cut -c1-230; grep -hE 'FAIL|HANG|ERROR|error' /tmp/w/$p.{}.out | head -3)"
