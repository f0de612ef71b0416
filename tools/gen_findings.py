import json,subprocess
P={}
log=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
prop='''d97e88b C23
c038d5a C15
6d50b03 C11
c2caf2b C12
d3503eb C06
cdce152 C07
15ca8f4 C05
d0968e1 C23
fd4f308 C22
2a36069 C24
c8b6e4c C13
346c155 C11
e27d83d C11
c7d45c5 C12
e161988 C09
a7d0336 C10
7a980e0 C09
5537670 C10
cad0f50 C15
0d45b84 C22
7676367 C22
70d3fd2 C22
56264a6 C21
fabe149 C28
d275936 C10
6f0d6a5 C05
aa2e2c1 C05
c0917b4 C05
a6698b7 C05
6f11ced C08
446573b C07
32c6e85 C07
d9a4bee C08
e63676c C19
d148d57 C19
d32527b C19
6777b70 C19
c81805e C18
c2f2010 C18
3f59802 C18
afd99e3 C17
71ce7b1 C19
111b641 C15
695bb1a C14
897da48 C24
4b090d3 C23
a7916c8 C04
b8601d5 C04
114d186 C06
d20891b C13
748fc9f C09
b91e11c C09
562fdbd C24
ad11546 C24
d0ace59 C14
3f60b45 C09
90a1c9d C10
89853c9 C23
ef72143 C24
144022e C06
b1e46a9 C29
1b4cf09 C29'''
prop=dict(l.split() for l in prop.splitlines())
fixed=[]
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): print('skip',l); continue
    fixed.append('fixed: property=%s %s %s'%(prop.pop(h),h,s[5:]))
print(prop, len(fixed))
names=['pay to address','pay to address, uncompressed key','pay to public key','pay to public key, verified','1 of 1','1 of 2','1 of 2, second key','2 of 2','2 of 3','2 of 3, last keys','script hash 1 of 2','script hash 2 of 3']
d={'findings':[
 {'property':'C18','keys':['cast_to_bool: true values whose first byte is zero'],
  'what':"Interpreter.cast_to_bool() takes stack values whose first byte is zero (0001 = 256, 008a, ...) for false, although Bitcoin takes them for true (0080 is false in both). tests/script/test_interpreter.py:26 pins it (cast_to_bool(decode_hex('008A')) is False), so no repair passes the existing tests"},
 {'property':'C20','keys':['valid spend: '+n for n in names]+['scripts that go on after a signature check that failed (... OP_CHECKSIG OP_NOT)'],
  'what':"OP_CHECKSIG and OP_CHECKMULTISIG with at least one signature are not implemented (Interpreter.check_signature_encoding() is a stub, Script.remove_opcode_by_data() and Signature do not exist): they fail the script, so valid spends are refused, and so are scripts that would succeed after a failed check. Implementing them is not a small repair. Forgeries are refused"},
],'fixed':fixed}
json.dump(d,open('/verif/known_findings.json','w'),indent=1)
