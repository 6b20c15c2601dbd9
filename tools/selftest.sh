#!/bin/bash
# engine self test: ok_ entries must pass, bad_ entries must be reported; then the standard library features
cd "$(dirname "$0")/.."; bad=0
for e in $(grep -o '^HARNESS([a-z_0-9]*)' harness/selftest.cpp | sed 's/HARNESS(\(.*\))/\1/'); do
  python3 bin/check.py SELFTEST --entry h_$e > /tmp/selftest.$$ 2>&1; rc=$?
  case $e in ok_*) want=0;; bad_*) want=1;; *) want=$rc;; esac
  [ $rc = $want ] || { echo "SELFTEST $e: exit $rc"; bad=1; }
done
rm -f /tmp/selftest.$$; python3 bin/check.py STDTEST || bad=1
exit $bad
