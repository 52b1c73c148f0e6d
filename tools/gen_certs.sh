#!/bin/bash
# Regenerates the simulation's certificates (committed; only needed if they are lost).
set -e
D=$(dirname "$(realpath "$0")")/../sim/certs
W=$(mktemp -d /tmp/certs.XXXXXX); cd "$W"
mkca() {
  openssl genpkey -algorithm ed25519 -out "$1.key"
  openssl req -new -key "$1.key" -subj "/CN=${2:-Sim Root}" -out "$1.csr"
  sign "$1" "$1" "$1" 20000101000000Z 21990101000000Z "basicConstraints=critical,CA:TRUE" -selfsign
}
sign() { # name ca_cert ca_key start end ext [extra]
  rm -rf db; mkdir db; touch db/index.txt; echo 01 > db/serial; openssl rand -hex 8 > db/serial
  printf '[ca]\ndefault_ca=d\n[d]\ndir=db\ndatabase=db/index.txt\nserial=db/serial\nnew_certs_dir=db\ndefault_md=default\npolicy=p\nunique_subject=no\ncopy_extensions=none\n[p]\ncommonName=supplied\n[e]\n%s\n' "$6" > c.cnf
  if [ "$7" = -selfsign ]; then
    openssl ca -batch -config c.cnf -selfsign -keyfile "$3.key" -in "$1.csr" -startdate "$4" -enddate "$5" -extensions e -notext -out "$1.pem" 2>/dev/null
  else
    openssl ca -batch -config c.cnf -cert "$2.pem" -keyfile "$3.key" -in "$1.csr" -startdate "$4" -enddate "$5" -extensions e -notext -out "$1.pem" 2>/dev/null
  fi
}
leaf() { # name ca start end san
  openssl genpkey -algorithm ed25519 -out "$1.key"
  openssl req -new -key "$1.key" -subj "/CN=irc.chat.twitch.tv" -out "$1.csr"
  sign "$1" "$2" "$2" "$3" "$4" "subjectAltName=$5"
}
mkca ca; mkca evilca; mkca otherca "Other Root"
leaf good ca 20000102000000Z 21980101000000Z DNS:irc.chat.twitch.tv
leaf wild ca 20000102000000Z 21980101000000Z DNS:*.chat.twitch.tv
leaf year ca 20230601000000Z 20240601000000Z DNS:irc.chat.twitch.tv
leaf expired ca 20010101000000Z 20020101000000Z DNS:irc.chat.twitch.tv
leaf future ca 21000101000000Z 21100101000000Z DNS:irc.chat.twitch.tv
leaf wrongname ca 20000102000000Z 21980101000000Z DNS:irc.example.org
leaf parent ca 20000102000000Z 21980101000000Z DNS:twitch.tv,DNS:chat.twitch.tv,DNS:irc.chat.twitch.tv.evil.org
leaf untrusted evilca 20000102000000Z 21980101000000Z DNS:irc.chat.twitch.tv
leaf viagood good 20000102000000Z 21980101000000Z DNS:irc.chat.twitch.tv
leaf other otherca 20000102000000Z 21980101000000Z DNS:irc.chat.twitch.tv
cat good.pem >> viagood.pem
mkdir -p "$D/stores"
cp otherca.pem "$D/stores/other.pem"; : > "$D/stores/empty.pem"; cat ca.pem otherca.pem > "$D/stores/both.pem"
(cat ca.pem; head -c 250 otherca.pem) > "$D/stores/torn.pem"
(cat ca.pem; echo '-----BEGIN CERTIFICATE-----'; echo 'this is not a certificate at all, only base64' | base64; echo '-----END CERTIFICATE-----') > "$D/stores/odd.pem"
for f in ca good wild year expired future wrongname parent untrusted viagood other; do cp $f.pem "$D/$f.pem"; [ $f = ca ] || cp $f.key "$D/$f.key"; done
cd /; rm -rf "$W"
