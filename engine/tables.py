# generates the AES S-box tables from their algebraic definition
def gmul(a,b):
    r=0
    while b:
        if b&1: r^=a
        a<<=1
        if a&256: a^=0x11b
        b>>=1
    return r
inv=[0]*256
for a in range(1,256):
    for b in range(1,256):
        if gmul(a,b)==1: inv[a]=b
rot=lambda x,k:((x<<k)|(x>>(8-k)))&255
S=[0]*256
for a in range(256):
    x=inv[a]; S[a]=x^rot(x,1)^rot(x,2)^rot(x,3)^rot(x,4)^0x63
I=[0]*256
for a in range(256): I[S[a]]=a
assert S[0]==0x63 and S[0x53]==0xed
print("static const uint8_t T_S[256]={%s};\nstatic const uint8_t T_I[256]={%s};"%(",".join(map(str,S)),",".join(map(str,I))))
