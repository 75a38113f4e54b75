import re,subprocess
def lit(b): return '"'+''.join('\\x%02x'%x for x in b)+'"'
out=['// Code generated by tools; test keys only. DO NOT EDIT.','package vf','','var Keys = map[string]*Key{}','','func init() {}','']
names=['R0','R1','R2','R3','E0','E1','E2','D0','D1']
for n in names:
    priv=open(n+'.p8','rb').read()
    x=''
    if n[0]=='D':
        t=subprocess.run(['openssl','pkey','-in','d%s.key'%n[1],'-text','-noout'],capture_output=True,text=True).stdout
        m=re.search(r'priv:\s*((?:\s+[0-9a-f:]+\n)+)pub:',t)
        priv=bytes.fromhex(re.sub(r'[\s:]','',m.group(1)))
    typ={'R':'rsa','E':'ec','D':'dsa'}[n[0]]
    out.append('var Key%s = &Key{Name: "%s", Type: "%s",\n\tCertStr: %s,\n\tSPKIStr: %s,\n\tPrivStr: %s}\n'%(n,n,typ,lit(open(n+'.crt','rb').read()),lit(open(n+'.spki','rb').read()),lit(priv)))
open('/verif/harness/internal/vf/keydata.go','w').write('\n'.join(out).replace('var Keys = map[string]*Key{}\n\nfunc init() {}\n\n',''))
