# Builds sgml_ref.h: names of the HTML 4/5 standards and letter+accent names (Python's html.entities and unicodedata), kept where the library's table means the same.
import re,unicodedata,html.entities
s=open('/repo/include/stdex/sgml_unicode.hpp',encoding='utf-8-sig').read()
t=re.findall(r'\{ "([^"]+)", _UTF32_\("((?:\\.|[^"\\])*)"\) \}',s)
def un(x): 
    x=re.sub(r'\\U([0-9a-fA-F]{8})|\\u([0-9a-fA-F]{4})',lambda m:chr(int(m[1] or m[2],16)),x)
    return x.replace('\\"','"').replace("\\\\","\\").replace("\\'","'")
T=[(a,un(b)) for a,b in t]
first={}
for a,b in T: first.setdefault(a,b)
H={k[:-1]:v for k,v in html.entities.html5.items() if k.endswith(';')}
for k,v in html.entities.name2codepoint.items(): H[k]=chr(v)
acc=dict(acute=0x301,grave=0x300,circ=0x302,caron=0x30c,uml=0x308,tilde=0x303,ring=0x30a,cedil=0x327,ogon=0x328,dot=0x307,breve=0x306,macr=0x304,dblac=0x30b,bring=0x32f,dotb=0x323)
gr={}
for n,u,l in [l.split() for l in '''a 391 3b1|b 392 3b2|g 393 3b3|d 394 3b4|e 395 3b5|z 396 3b6|ee 397 3b7|th 398 3b8|i 399 3b9|k 39a 3ba|l 39b 3bb|m 39c 3bc|n 39d 3bd|x 39e 3be|o 39f 3bf|p 3a0 3c0|r 3a1 3c1|s 3a3 3c3|t 3a4 3c4|u 3a5 3c5|ph 3a6 3c6|kh 3a7 3c7|ps 3a8 3c8|oh 3a9 3c9'''.split('|')]:
    gr[n.upper()+'gr']=chr(int(u,16)); gr[n+'gr']=chr(int(l,16))
gr['sfgr']='\u03c2'
for n,u,l in [l.split() for l in 'a 386 3ac|e 388 3ad|ee 389 3ae|i 38a 3af|o 38c 3cc|u 38e 3cd|oh 38f 3ce'.split('|')]:
    gr[n.upper()+'acgr']=chr(int(u,16)); gr[n+'acgr']=chr(int(l,16))
gr.update(Idigr='\u03aa',idigr='\u03ca',Udigr='\u03ab',udigr='\u03cb',idiagr='\u0390',udiagr='\u03b0',vtab='\x0b',hyphen='-',sbsol='\\',schwa='\u0259')
nf=lambda x:unicodedata.normalize('NFC',x)
out=[];left=[]
for a,b in first.items():
    m=re.match(r'^([A-Za-z])(%s)$'%'|'.join(acc),a)
    if a in H and H[a]==b: out.append((a,b))
    elif gr.get(a)==b: out.append((a,b))
    elif m and nf(m[1]+chr(acc[m[2]]))==nf(b): out.append((a,b))
    else: left.append((a,b))
print(len(out),len(left)); print(ascii(left))
bases=sorted({b[0] for a,b in T if len(b)==2}); marks=sorted({b[1] for a,b in T if len(b)==2})
comp=[(x,y,nf(x+y)) for x in bases for y in marks if len(nf(x+y))==1]
with open('/tmp/wip/sgml_ref.h','w') as f:
    f.write('// Reference for SGML entities, from the HTML 4 and 5 entity lists and Unicode normalisation (Python html.entities, unicodedata).\n#pragma once\n#include <stdint.h>\n')
    f.write('static const struct { const char* name; uint32_t u[2]; } ref_entities[] = {\n'+''.join('{"%s",{%s}},\n'%(a,','.join(hex(ord(c)) for c in b)) for a,b in out)+'};\n')
    f.write('static const uint32_t ref_composed[][3] = {\n'+''.join('{%#x,%#x,%#x},\n'%(ord(a),ord(b),ord(c)) for a,b,c in comp)+'};\n')
    f.write('static const uint32_t ref_bases[] = {'+','.join(hex(ord(c)) for c in bases)+'};\nstatic const uint32_t ref_marks[] = {'+','.join(hex(ord(c)) for c in marks)+'};\n')
