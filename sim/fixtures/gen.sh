#!/bin/bash
# Regenerates the committed test certificates and keys (run once; the outputs are committed).
set -e
cd "$(dirname "$0")"
mk() { # name san [cn]
  openssl ecparam -name prime256v1 -genkey -noout -out k.pem 2>/dev/null
  if [ -n "$2" ]; then
    openssl req -x509 -new -key k.pem -subj "/CN=${3:-$1}" -days 36500 -sha256 -addext "subjectAltName=$2" -outform DER -out "$1.der"
  else
    openssl req -x509 -new -key k.pem -subj "/CN=${3:-$1}" -days 36500 -sha256 -outform DER -out "$1.der"
  fi
  openssl ec -in k.pem -noout -text 2>/dev/null | awk '/priv:/{f=1;next}/pub:/{f=0}f' | tr -d ' :\n' | sed 's/^00//' | tail -c 64 > "$1.key"
}
mk verifier "DNS:verifier.example"
mk bank "DNS:bank.example,DNS:login.bank.example"
mk city "URI:https://city.example/,DNS:city.example"
mk clinic "DNS:portal.clinic.example"
mk uni "email:office@uni.example,IP:10.0.0.1,DNS:uni.example,DNS:www.uni.example"
mk shop "$(for i in $(seq 1 30); do printf 'DNS:s%d.shop.example,' $i; done)DNS:shop.example"
mk evil "DNS:evil.example"
mk eviluri "URI:verifier.example,email:verifier.example@evil.example,DNS:x.evil.example"
mk evilwild "DNS:*.example"
mk evilsuffix "DNS:verifier.example.evil.example,DNS:notverifier.example"
mk evilcase "DNS:VERIFIER.EXAMPLE"
mk evilcn "DNS:cn.evil.example" verifier.example
mk evilnosan "" verifier.example
mk evilsub "DNS:sub.verifier.example,DNS:a.bank.example,DNS:b.city.example" bank.example
mk evilshort "DNS:example,DNS:r.example,DNS:k.example,DNS:y.example" short
mk evillong "DNS:verifier.example.,DNS:verifier.example.org,DNS:bank.examples,DNS:city.example.evil.example" long
mk evilwild2 "DNS:*.verifier.example,DNS:*.bank.example" wild
mk nosan ""
mk urisan "URI:https://only.example/"
rm -f k.pem
for n in did0 did1 did2 did3 did4 did5 did6 did7 did8 did9 custom; do openssl rand -hex 32 | tr -d '\n' > $n.key; done
