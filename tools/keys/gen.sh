set -e
mk() { # name keyfile subj
 openssl req -x509 -new -key $2 -sha256 -days 9000 -subj "$3" -set_serial $4 -out $1.pem 2>/dev/null
 openssl x509 -in $1.pem -outform DER -out $1.crt
 openssl x509 -in $1.pem -noout -pubkey | openssl pkey -pubin -outform DER -out $1.spki
 openssl pkcs8 -topk8 -nocrypt -in $2 -outform DER -out $1.p8
}
for i in 0 1 2 3; do openssl genrsa -out r$i.key 2048 2>/dev/null; mk R$i r$i.key "/C=CZ/O=Verif/CN=R$i" $((100+i)); done
for i in 0 1 2; do openssl ecparam -name prime256v1 -genkey -noout -out e$i.key; mk E$i e$i.key "/C=CZ/O=Verif/CN=E$i" $((200+i)); done
openssl genpkey -genparam -algorithm DSA -pkeyopt dsa_paramgen_bits:1024 -pkeyopt dsa_paramgen_q_bits:160 -out d0.par 2>/dev/null; openssl genpkey -paramfile d0.par -out d0.key; mk D0 d0.key "/C=CZ/O=Verif/CN=D0" 300
openssl genpkey -genparam -algorithm DSA -pkeyopt dsa_paramgen_bits:2048 -pkeyopt dsa_paramgen_q_bits:256 -out d1.par 2>/dev/null; openssl genpkey -paramfile d1.par -out d1.key; mk D1 d1.key "/C=CZ/O=Verif/CN=D1" 301
ls -la *.crt *.spki *.p8
