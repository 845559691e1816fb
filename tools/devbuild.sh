set -e
SRC=${1:-/repo}; O=${2:-/tmp/hb}; mkdir -p $O
for f in $SRC/dhara/*.c $SRC/ecc/*.c; do clang -g -O1 -fexceptions -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -I$SRC -c $f -o $O/$(basename $f .c).o & done
for f in /verif/harness/{sim,world,gen,main,drivers,jworld,format,big,eccmem}.cpp; do clang++ -std=c++17 -g -O2 -Wall -I$SRC -c $f -o $O/$(basename $f .cpp).oo & done; wait
clang++ -fsanitize=address,undefined $O/*.o $O/*.oo -o $O/h
