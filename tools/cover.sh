#!/bin/sh
# Line coverage of the repository under the checks' workloads: tools/cover.sh DIR [SCALE] [PROPERTY...]
# Writes DIR/lines.txt (file:line of each executable line that no workload reached).
D=$1; S=${2:-0.3}; [ $# -ge 2 ] && shift 2 || shift 1
cd "$(dirname "$0")/.." || exit 2
mkdir -p "$D/raw"; chmod 777 "$D/raw"
P=${*:-$(python3 -c 'import checks; print(*sorted(checks.CHECKS))')}
for p in $P; do VERIF_COV=$D python3 run.py "$p" --scale "$S" 2>&1 | tail -1 | cut -c1-200; done
llvm-profdata-18 merge -sparse "$D"/raw/*.profraw -o "$D/all.profdata" || exit 2
: > "$D/all.lcov"
for e in $(find "$D/build" -maxdepth 1 -type f -perm -100); do
	llvm-cov-18 export -format=lcov -instr-profile="$D/all.profdata" "$e" >> "$D/all.lcov" 2>/dev/null
done
python3 - "$D" <<'E'
import sys, os
D = sys.argv[1]; cur = None; hit = {}
for l in open(D + '/all.lcov'):
    if l.startswith('SF:'): cur = l[3:].strip()
    elif l.startswith('DA:') and cur.startswith(os.environ.get('VERIF_REPO', '/repo') + '/'):
        n, c = l[3:].split(',')[:2]
        k = (cur, int(n)); hit[k] = hit.get(k, 0) + int(c)
files = {}
for (f, n), c in hit.items(): files.setdefault(f, []).append((n, c))
w = open(D + '/lines.txt', 'w'); tot = cov = 0
for f in sorted(files):
    ls = sorted(files[f]); z = [n for n, c in ls if not c]; tot += len(ls); cov += len(ls) - len(z)
    print('%5d/%5d %s' % (len(ls) - len(z), len(ls), f))
    for n in z: w.write('%s:%d\n' % (f, n))
print('lines executed: %d of %d' % (cov, tot))
E
