import subprocess
m={'to_bool/from_bool':('C05','to_bool/from_bool with reverse=true accessed data[length], one past the array'),
'MITCCRH renews':('C17','MITCCRH kept using a spent key batch when fewer than K unused keys were left, re-using key indices'),
'PRP constructed':('C20','PRP(const char*) left its AES key uninitialised'),
'PRG::reseed':('C19','operator() returned words buffered from the previous seed after reseed'),
'random_data_unaligned':('C19','the keystream consumed by random_data_unaligned depended on the alignment of the output buffer'),
'privacy-free evaluation':('C16','privacy_free_eva xored the low half of the received block twice instead of the whole block'),
'Hash::put':('C23','Hash::put hashed a large piece before the bytes still buffered'),
'NetIO keeps':('C26','NetIO lost bytes that had arrived but were not read when the endpoint sent'),
'HighSpeedNetIO pads':('C27','HighSpeedNetIO read past the end of its buffer when padding'),
'MemIO::clear':('C25','MemIO::clear left the read position, so bytes sent afterwards were not received'),
'send_bool/recv_bool':('C28','send_bool/recv_bool exchanged different numbers of bytes when the two arrays were aligned differently'),
'AES counter mode carries':('C29','the starting chunk and the public initial vector were added to the low 64 bits of the counter only'),
'circuit emission writes':('C12','revealing a public constant wrote wire 0 as the output of the emitted circuit'),
'BristolFashion::from_file':('C13','loading a second circuit into the same object accumulated the input and output counts')}
import sys
L=[]
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s']).decode().splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    for k,(p,t) in m.items():
        if k in s: L.append('fixed: property=%s %s %s'%(p,h,t)); break
    else: print('UNMATCHED',s)
extra=[l for l in open('/verif/known-findings.txt').read().splitlines() if l.startswith('finding:')]
open('/verif/known-findings.txt','w').write('\n'.join(L+extra)+'\n'); print(len(L))
