#!/bin/bash
# show one run: tools/s.sh WORKLOAD SEED [lines]
f=$(mktemp); printf 'workload %s\nseed %s\n' $1 $2 > $f; /verif/build/harness one $f -v -d -2 > $f.j; python3 - $f.j ${3:-60} <<'PY'
import json,sys,subprocess,re
d=json.load(open(sys.argv[1])); h=d.pop('history').split('\n'); d['dec']=len(d['dec']); m=d['msg']; print('\n'.join(h[-int(sys.argv[2]):])); print(d)
for a in re.findall(r'0x[0-9a-f]+',m):
    o=subprocess.run(['/usr/lib/llvm-18/bin/llvm-symbolizer','-e','/verif/build/harness','--no-inlines',a],capture_output=True,text=True).stdout.split('\n')
    if o[0]!='??': print(a,o[0][:110],o[1])
PY
rm -f $f $f.j
