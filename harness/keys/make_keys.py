"""Generates the committed test keys and certificates (run once, not by the checks)."""
import os, random, subprocess, sys
def sh(*a, **k): return subprocess.run(a, check=True, capture_output=True, text=True, **k).stdout
def der_key(p, q, e, out):
    n = p*q; d = pow(e, -1, (p-1)*(q-1))
    vals = dict(version=0, modulus=n, pubExp=e, privExp=d, p=p, q=q, e1=d%(p-1), e2=d%(q-1), coeff=pow(q,-1,p))
    conf = "asn1=SEQUENCE:k\n[k]\n" + "".join(f"{k}=INTEGER:{v if k=='version' else hex(v)}\n" for k,v in vals.items())
    open("tmp.cnf","w").write(conf)
    sh("openssl","asn1parse","-genconf","tmp.cnf","-out","tmp.der","-noout")
    sh("openssl","pkey","-inform","DER","-in","tmp.der","-out",out)
    os.remove("tmp.cnf"); os.remove("tmp.der")
def isprime(n, r=random.Random(1)):
    for s in (3,5,7,11,13,17,19,23,29,31,37):
        if n%s==0: return n==s
    d=n-1; k=0
    while d%2==0: d//=2; k+=1
    for _ in range(24):
        x=pow(r.randrange(2,n-1),d,n)
        if x in (1,n-1): continue
        for _ in range(k-1):
            x=x*x%n
            if x==n-1: break
        else: return False
    return True
def prime(bits, rng):
    while True:
        p = rng.getrandbits(bits)|(3<<(bits-2))|1
        if isprime(p) and (p-1)%65537 and (p-1)%65539: return p
def parse(f):
    t = sh("openssl","rsa","-in",f,"-noout","-text")
    cur=None; v={}
    for l in t.splitlines():
        if l and not l.startswith(" "): cur=l.split(":")[0]; v[cur]=""
        elif cur: v[cur]+=l.strip().replace(":","")
    return {k:int(x,16) for k,x in v.items() if x}
def cert(key, out, subj="/C=SE/O=Modelon", days="36500", extra=()):
    sh("openssl","req","-x509","-new","-key",key,"-subj",subj,"-days",days,"-out",out,*extra)
rng = random.Random(20240229)
t = parse("tool.pem"); n=t["modulus"]; p,q=t["prime1"],t["prime2"]
# same modulus, other public exponent of equal length
e2=next(e for e in range(65539, 65539+4000, 2) if all(__import__('math').gcd(e,x-1)==1 for x in (p,q)))
der_key(p,q,e2,"alike_e.pem")
# modulus shares its high half with tool's
while True:
    a=prime(1024,rng); b=n//a
    b|=1; k=0
    while not isprime(b) and k<40000: b+=2; k+=1
    if isprime(b) and (a*b).bit_length()==2048 and (b-1)%65537: break
der_key(a,b,65537,"alike_hi.pem")
# modulus shares its low half with tool's
while True:
    a=prime(1024,rng); low=(n*pow(a,-1,1<<1000))%(1<<1000)
    ok=False
    for h in range(3<<22,1<<24):
        b=(h<<1000)|low
        if isprime(b) and (a*b).bit_length()==2048 and (b-1)%65537: ok=True; break
    if ok: break
der_key(a,b,65537,"alike_lo.pem")
sh("openssl","genpkey","-algorithm","EC","-pkeyopt","ec_paramgen_curve:P-256","-out","ec.pem")
sh("openssl","genrsa","-out","big.pem","3072")
for k in ("tool","toolb","toolc","evil","evil2","alike_e","alike_hi","alike_lo","ec","big","lve"):
    cert(k+".pem",k+".crt")
pem=open("tool.pub.pem").read()
cert("evil.pem","evil_subj.crt",subj="/C=SE/O=Modelon/CN="+pem.splitlines()[1][:60].replace("/","\\/"))
open("evil_chain.crt","w").write(open("evil.crt").read()+open("tool.crt").read())
open("tool_chain.crt","w").write(open("tool.crt").read()+open("evil.crt").read())
