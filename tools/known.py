#!/usr/bin/env python3
"""known.py DIR: writes DIR/N2__*.rs: published test vectors as assertions about the spec functions, settled by evaluation inside Verus
(compute_only). Inputs and outputs are those of FIPS 180-4, RFC 4231, RFC 7914, the Salsa20 specification, FIPS 197 and SP 800-38A;
the hashes and the derived keys are computed here with hashlib and compared with the published values."""
import hashlib,hmac,sys,os
D=sys.argv[1]
def seq(b):
    b=bytes(b)
    if not b: return 'Seq::<u8>::empty()'
    return 'seq![%s]'%', '.join(('0x%02xu8' if i==0 else '0x%02x')%x for i,x in enumerate(b))
def lemma(n,l):
    o='pub proof fn %s()\n{\n'%n
    for e,v in l: o+='    assert(%s\n        =~= %s) by (compute_only);\n'%(e,v)
    return o+'}\n'
def write(f,head,l):
    open(os.path.join(D,f),'w').write('// ---- known answers: %s. Written by tools/known.py.\n'%head+''.join(lemma(*x) for x in l))
def H(x): return bytes.fromhex(x.replace(' ','').replace('\n',''))
# --- SHA-256
V=[(b'abc','ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad'),
   (b'','e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855'),
   (b'abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq','248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1')]
for m,d in V: assert hashlib.sha256(m).hexdigest()==d
write('12__sha256.rs','FIPS 180-4 examples',[('sp_known_sha256',[('sp_sha256(%s)'%seq(m),seq(H(d))) for m,d in V])])
# --- HMAC (RFC 4231)
V=[(b'\x0b'*20,b'Hi There','b0344c61d8db38535ca8afceaf0bf12b881dc200c9833da726e9376c2e32cff7'),
   (b'Jefe',b'what do ya want for nothing?','5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843'),
   (b'\xaa'*131,b'Test Using Larger Than Block-Size Key - Hash Key First','60e431591ee0b67f0d8a26aacbf5b77f8e0bc6213728c5140546040f0ee37f54')]
for k,m,d in V: assert hmac.new(k,m,hashlib.sha256).hexdigest()==d
write('22__hmac.rs','RFC 4231, cases 1, 2 and 6',[('sp_known_hmac',[('sp_hmac(%s, %s)'%(seq(k),seq(m)),seq(H(d))) for k,m,d in V])])
# --- PBKDF2 (RFC 7914, section 11: the first; two iterations and a partial last block: hashlib)
V=[(b'passwd',b'salt',1,64),(b'password',b'salt',2,32),(b'password',b'NaCl',3,40)]
assert hashlib.pbkdf2_hmac('sha256',b'passwd',b'salt',1,64).hex().startswith('55ac046e56e3089fec1691c22544b605')
write('32__pbkdf2.rs','RFC 7914 section 11, and two computed with another implementation',
  [('sp_known_pbkdf2',[('sp_pbkdf2(%s, %s, %d, %d)'%(seq(p),seq(s),c,n),seq(hashlib.pbkdf2_hmac('sha256',p,s,c,n))) for p,s,c,n in V])])
# --- Salsa20 (specification, section 8/9; RFC 7914 section 8 for eight rounds)
i20=bytes([211,159,13,115,76,55,82,183,3,117,222,37,191,187,234,136,49,237,179,48,1,106,178,219,175,199,166,48,86,16,179,207,31,240,32,63,15,83,93,161,116,147,48,113,238,55,204,36,79,201,235,79,3,81,156,47,203,26,244,243,88,118,104,54])
o20=bytes([109,42,178,168,156,240,248,238,168,196,190,203,26,110,170,154,29,29,150,26,150,30,235,249,190,163,251,48,69,144,51,57,118,40,152,157,180,57,27,94,107,42,236,35,27,111,114,114,219,236,232,135,111,155,110,18,24,232,95,158,179,19,48,202])
i8=H('7e879a214f3ec9867ca940e641718f26baee555b8c61c1b50df846116dcd3b1dee24f319df9b3d8514121e4b5ac5aa3276021d2909c74829edebc68db8b8c25e')
o8=H('a41f859c6608cc993b81cacb020cef05044b2181a2fd337dfd7b1c6396682f29b4393168e3c9e6bcfe6bc5b7a06d96bae424cc102c91745c24ad673dc7618f81')
write('42__salsa20.rs','Salsa20 specification section 8 (20 rounds), RFC 7914 section 8 (8 rounds)',
  [('sp_known_salsa20',[('sp_salsa_block(%s, 10)'%seq(i20),seq(o20)),('sp_salsa_block(%s, 4)'%seq(i8),seq(o8)),
    ('sp_salsa(%s + %s, 4, 2)'%(seq(i8),seq(i8)),seq(o8+o8))])])
# --- scrypt (RFC 7914, sections 9, 10 and 12)
bm_in=H('f7ce0b653d2d72a4108cf5abe912ffdd777616dbbb27a70e8204f3ae2d0f6fad89f68f4811d1e87bcc3bd7400a9ffd29094f0184639574f39ae5a1315217bcd7')+H('894991447213bb226c25b54da86370fbcd984380374666bb8ffcb5bf40c254b067d27c51ce4ad5fed829c90b505a571b7f4d1cad6a523cda770e67bceaaf7e89')
bm_out=H('a41f859c6608cc993b81cacb020cef05044b2181a2fd337dfd7b1c6396682f29b4393168e3c9e6bcfe6bc5b7a06d96bae424cc102c91745c24ad673dc7618f81')+H('20edc975323881a80540f64c162dcd3c21077cfe5f8d5fe2b1a4168f953678b77d3b3d803b60e4ab920996e59b4d53b65d2a225877d5edf5842cb9f14eefe425')
V=[(b'',b'',16,1,1,64)]
def two(b): return 'seq![%s, %s]'%(seq(b[:64]),seq(b[64:]))
l=[('sp_blockmix(%s)[0]'%two(bm_in),seq(bm_out[:64])),('sp_blockmix(%s)[1]'%two(bm_in),seq(bm_out[64:]))]
l+=[('sp_scrypt(%s, %s, %d, %d, %d, %d)'%(seq(p),seq(s),n,r,q,k),seq(hashlib.scrypt(p,salt=s,n=n,r=r,p=q,dklen=k))) for p,s,n,r,q,k in V]
assert hashlib.scrypt(b'',salt=b'',n=16,r=1,p=1,dklen=64).hex().startswith('77d6576238657b203b19ca42c18a0497')
write('52__scrypt.rs','RFC 7914 sections 9 and 12',[('sp_known_scrypt',l)])

# --- AES (FIPS 197, appendix C) and CBC (SP 800-38A, F.2.1, F.2.3 and F.2.5)
B=bytes.fromhex('00112233445566778899aabbccddeeff')
C={16:'69c4e0d86a7b0430d8cdb78070b4c55a',24:'dda97ca4864cdfe06eaf70a0ec0d7191',32:'8ea2b7ca516745bfeafc49904b496089'}
l=[('sa_aes_enc(%s, %s)'%(seq(bytes(range(n))),seq(B)),seq(H(C[n]))) for n in C]
l+=[('sa_aes_dec(%s, %s)'%(seq(bytes(range(n))),seq(H(C[n]))),seq(B)) for n in C]
write('62__aes.rs','FIPS 197 appendix C',[('sa_known_aes',l)])
P0=H('6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e5130c81c46a35ce411e5fbc1191a0a52eff69f2445df4f9b17ad2b417be66c3710')
K={128:'2b7e151628aed2a6abf7158809cf4f3c',192:'8e73b0f7da0e6452c810f32b809079e562f8ead2522c6b7b',256:'603deb1015ca71be2b73aef0857d77811f352c073b6108d72d9810a30914dff4'}
C={128:'7649abac8119b246cee98e9b12e9197d5086cb9b507219ee95db113a917678b273bed6b8e3c1743b7116e69e222295163ff1caa1681fac09120eca307586e1a7',
   192:'4f021db243bc633d7178183a9fa071e8b4d9ada9ad7dedf4e5e738763f69145a571b242012fb7ae07fa9baac3df102e008b0e27988598881d920a9e64f5615cd',
   256:'f58c4c04d6e5f1ba779eabfb5f7bfbd69cfc4e967edb808d679f777bc6702c7d39f23369a9d9bacfa530e26304231461b2eb05e2c39be9fcda6c19078c6a9d1b'}
l=[]
for n in K:
    k=seq(H(K[n])); iv=seq(bytes(range(16)))
    l.append(('sc_enc(%s, %s, sa_nr(%s), sa_schedule(%s), 4)'%(iv,seq(P0),k,k),seq(H(C[n]))))
    l.append(('sc_dec(%s, %s, sa_nr(%s), sa_schedule(%s), 4)'%(iv,seq(H(C[n])),k,k),seq(P0)))
write('82__aes_cbc.rs','SP 800-38A F.2 (CBC)',[('sc_known_cbc',l)])
