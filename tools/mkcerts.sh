#!/bin/bash
# Makes the test certificates of C18 (committed in /verif/certs; not run by the checks).
set -e
D="$(cd "$(dirname "$0")/.." && pwd)/certs"; W=$(mktemp -d); cd "$W"; mkdir -p "$D"
key() { openssl genpkey -algorithm EC -pkeyopt ec_paramgen_curve:P-256 -out "$1.key" 2>/dev/null; }
root() { # name
  key $1
  openssl req -x509 -new -key $1.key -subj "/CN=$1" -days 20000 -addext basicConstraints=critical,CA:TRUE -addext keyUsage=critical,keyCertSign -out $1.pem 2>/dev/null; }
issue() { # name issuer start end cn ext...
  local n=$1 i=$2 s=$3 e=$4 cn=$5; shift 5
  key $n
  openssl req -new -key $n.key -subj "/CN=$cn" -out $n.csr 2>/dev/null
  printf '%s\n' "$@" > $n.ext
  rm -rf db; mkdir db; : > db/index; echo $RANDOM$RANDOM | sed 's/^/1/' | head -c 6 > db/serial; [ $(( $(wc -c < db/serial) % 2 )) = 0 ] || printf 0 >> db/serial
  cat > db/c.cnf <<C
[ca]
default_ca=d
[d]
database=db/index
serial=db/serial
new_certs_dir=db
default_md=sha256
policy=p
unique_subject=no
[p]
commonName=supplied
C
  openssl ca -batch -config db/c.cnf -cert $i.pem -keyfile $i.key -in $n.csr -out $n.full -startdate $s -enddate $e -extfile $n.ext -notext 2>/dev/null
  cp $n.full $n.pem; }
S=20200101000000Z; E=20600101000000Z
root ca; root ca2
SV="extendedKeyUsage=serverAuth"
issue good ca $S $E tls.test "subjectAltName=DNS:tls.test" $SV
issue wild ca $S $E x "subjectAltName=DNS:*.tls.test" $SV
issue ip ca $S $E x "subjectAltName=IP:10.0.0.1" $SV
issue wronghost ca $S $E tls.test "subjectAltName=DNS:other.test" $SV
issue suffix ca $S $E tls.test "subjectAltName=DNS:test,DNS:a.tls.test,DNS:tls.test.evil" $SV
issue nosan ca $S $E tls.test $SV
issue expired ca 20200101000000Z 20210101000000Z tls.test "subjectAltName=DNS:tls.test" $SV
issue notyet ca 20550101000000Z $E tls.test "subjectAltName=DNS:tls.test" $SV
issue untrusted ca2 $S $E tls.test "subjectAltName=DNS:tls.test" $SV
issue client ca $S $E tls.test "subjectAltName=DNS:tls.test" "extendedKeyUsage=clientAuth"
issue inter ca $S $E inter "basicConstraints=critical,CA:TRUE" "keyUsage=critical,keyCertSign"
issue leaf inter $S $E tls.test "subjectAltName=DNS:tls.test" $SV
issue byleaf good $S $E tls.test "subjectAltName=DNS:tls.test" $SV
key self; openssl req -x509 -new -key self.key -subj /CN=tls.test -days 20000 -addext subjectAltName=DNS:tls.test -out self.pem 2>/dev/null
for n in good wild ip wronghost suffix nosan expired notyet untrusted client leaf byleaf self; do cp $n.key "$D/$n.key"; openssl x509 -in $n.pem > "$D/$n.pem"; done
openssl x509 -in ca.pem > "$D/ca.pem"; openssl x509 -in inter.pem > "$D/inter.pem"; openssl x509 -in ca2.pem > "$D/ca2.pem"
cd /; find "$W" -type f -delete; find "$W" -depth -type d -empty -delete
