"""Items made of random tokens, texts and types: what a macro is given before it is finished typing."""
import random, re
import items as gen

TOK=['"{}"','"{a}"','""','"{:x}"','"{:/a/}"','=',',','u8','str','&str',"'a",'(',')','[',']','{','}','|x|','x','default','map','filter_map','from','try_from','format','format_unescaped','format_x','transparent','skip','autogen','5','-1','5.0',"'c'",'b"x"','r"{}"','r#"{}"#','c"x"','"é{}"','::','<u8>','Option','#','!','$x','$','_','..','...','?','&mut','dyn','impl Fn()','fn(u8)','!','*const u8','for<\'a> fn(&\'a u8)','[u8; 3]','(u8, u8)','()','r#type','concat!("{}")','stringify!(a)','1 + 1','if','match','async','self','Self','crate','0x7f','1e5','true','u8::MAX','<T as X>::Y','Vec<Vec<u8>>','"\\n"','"\\u{41}"','"a\\\n  b"','r"\\d"','include_str!("x")','99999999999999999999999999','"{99999999999999999999999999}"','"{18446744073709551616}"']
FMT=['{','}','{{','}}',':','/','\\\\','#','x','o','b','r','r37','r0','r1','r99999999999','é','漢','ſ','😀','0','1','9','18446744073709551615','99999999999999999999','a','_','u8','str','&str','::','<','>','\\n','\\t','\\u{1F600}','\\x41',"\\'",'\\"','\\0',' ','(',')','[',']','?:','?','*','+','|','^','$','.','\\\\d','\\\\/','/}','{:','{:/','/}','{:/(a)/}','{:/a{2}/}','{:/}/}','{:/{/}','{:#x}','{:x#}','{u8:r36}','{:r}','{:r-1}','{:r٣}','{:é}','{é}','{ }','{ :x}','{: x}','{u8 }','{a b}','{0}','{-1}','{+1}','{0x1}','{1_0}','{٣}','\u200d','👩','👩\u200d👩','\u0301','\u0600','\ufe0f','\u202e','\ufeff','\\\n   ']
LITS=re.compile(r'\br(#*)".*?"\1(?:r#)?\w*|\b[bc]?"(?:\\.|[^"\\])*"(?:r#)?\w*|"(?:\\.|[^"\\])*"(?:r#)?\w*',re.S)
BIG=[2,3,7,8,16,30,35,36,37,39,40,99,100,127,128,199,255,256,257,300,399,400,512,999,1000,1024,32767,32768,65535,65536,2**31,2**32,2**63,2**64-1,2**64]
INTYPES=["Cow<>","Cow<'a>","Cow<str>","Cow<'a, str>","Cow<'a, str, u8>","Cow<'a, 'b, str>","std::borrow::Cow<>","borrow::Cow<str>","alloc::borrow::Cow<'static, str>","::std::borrow::Cow<str>",'Cow','Cow()',"Cow<u8>","Cow<_>",
    '&str',"&'a str",'&mut str','&u8','&','str','std::str','primitive::str','::core::primitive::str','core::str','[u8]','[str; 2]','(u8)','(u8, u8)','()','!','u8 u8','<u8 as T>::X','<','Vec<','Vec<u8>','Vec<Vec<str>>','Option<&str>',
    'fn()','dyn X','impl X','_','Self','self::A','super::A','crate::prelude::W','r#u8','r#type','1u8','-1','1.0','a b','{}','é','längst','/a/','/','//','/é/','u8,','u8;','"',"'a","'",'\u0301','u8\u200d']
RX=['a','b','é','漢','[a-z]','[^x]','.','x*','y+','z?','a{2}','a{2,}','a{,3}','{','}','(?:a|b)','(a)','(?P<n>a)','(?i)','(?i:k)','(',')','[',']','|','^','$','/','#',' ','&&','~','-','\u0301']
RXE=['d','w','s','b','/','.','p{L}','x41','x{41}','u{41}','u0041','1','k','-','{','Q','n','t','pN','P{Greek}']
def rx(r,raw):
    s=''
    for _ in range(r.choice([0,1,1,2,3,4,6,9,14,25,60])):
        if r.random()<.25:
            e=r.choice(RXE)
            s+='\\'+e if raw else r.choice(['\\\\'+e,'\\\\'+e,'\\\\'+e,'\\n','\\t','\\\\\\\\','\\u{41}'])
        else: s+=r.choice(RX[:16] if r.random()<.85 else RX)
    return s
def ph(r,raw):
    k=r.random()
    i='' if k<.35 else str(r.choice([0,0,1,1,2,9]+BIG)) if k<.5 else r.choice(['a','f0','f1','f2','x','u8','u8','i64','String','char','f32','bool','W']) if k<.75 else r.choice(INTYPES) if k<.97 else r.choice(FMT)
    k=r.random()
    o='' if k<.4 else ':'+r.choice(['x','#x','x#','o','b','#b','b#','#','##','#r16','r#','x##','X','r','R16','r 16','r+7','r-2','rr','?','>5','05',':','',' '])if k<.6 else ':r'+str(r.choice(BIG))+r.choice(['']*9+['#','x','é']) if k<.75 else ':/'+rx(r,raw)+r.choice(['/']*12+['','//','/ ','/é','/x','/:','/i'])
    s='{'+i+o+r.choice(['}']*20+['',' }','é}','}}'])
    if r.random()<.1:
        j=r.randrange(len(s)+1); s=s[:j]+r.choice(FMT[:60])+s[j:]
    return s
GOOD=re.compile(r'"(?:\\(?:[nrt0\'"\\]|x[0-7][0-9a-fA-F]|u\{[0-9a-fA-F]{1,4}\}|\n\s*)|[^"\\])*"')
def fmt(r):
    """a format string made of placeholders, few of them wrong"""
    while True:
        raw=r.random()<.3
        s=''
        for _ in range(r.choice([0,1,1,1,2,2,3,5])):
            if r.random()<.5: s+=r.choice(gen.LITS if not raw else gen.LITS[:12])
            s+=ph(r,raw) if r.random()<.93 else r.choice(FMT)
        h='#'*r.choice([0,0,1,1,2,3,4,7]) if raw else ''
        s=('r'+h if raw else '')+'"'+s+'"'+h
        if raw:
            if ('"'+h) in s[len(h)+2:-1-len(h)] or '\n' in s: continue
        elif not GOOD.fullmatch(s): continue
        return s+suffix(r)
def typo(r,w):
    j=r.randrange(len(w)+1)
    return r.choice([w[:j]+w[j+1:],w[:j]+r.choice('abx_e')+w[j:],w+'_','_'+w,w.upper(),w[:j]+w[:j][-1:]+w[j:],w[::-1],w+w]) or 'x'
def spoil(r,s):
    """an item with a mistake or two"""
    for _ in range(r.choice([1,1,2])):
        l=[m for m in LITS.finditer(s)]
        if l and r.random()<.5:
            m=r.choice(l); s=s[:m.start()]+fmt(r)+s[m.end():]; continue
        w=[m for m in re.finditer(r'\b(?:format|format_unescaped|transparent|skip|default|map|filter_map|from|try_from|autogen|autogenerate|[A-Z]\w* case|snake_case|camelCase)\b',s)]
        if w:
            m=r.choice(w); s=s[:m.start()]+typo(r,m.group())+s[m.end():]
    return s
def lit(r):
    if r.random()<.6: return fmt(r)
    s=''.join(r.choice(FMT) for _ in range(r.randint(0,7)))
    if r.random()<.25:
        s=s.replace('"','').replace('\\\n','')
        return 'r##"%s"##'%s+suffix(r)
    return '"%s"'%s+suffix(r)
def suffix(r): return r.choice(['é','漢','abc','u8','r','_x','éé','r#u8']) if r.random()<.04 else ''
def balanced(s):
    st=[];i=0
    # crude: literal-aware
    s2=LITS.sub(' ',s).replace("'c'",' ')
    for c in s2:
        if c in '([{': st.append(c)
        elif c in ')]}':
            if not st or '([{'.index(st.pop())!=')]}'.index(c): return False
    return not st
def toks(r,n):
    while True:
        l=[lit(r) if r.random()<.3 else r.choice(TOK) for _ in range(r.randint(0,n))]
        s=' '.join(l)
        if balanced(s): return s
TYS=gen.PLAIN+['str','&str',"&'static str",'[u8; 3]','(u8, u8)','()','!','fn(u8)','dyn Fn()','*const u8',"Box<dyn Fn() + 'static>",'impl Copy','_','Self','<u8 as Copy>::X','m!()','[u8]','((u8))','&\'a mut str','&&str','Option<&str>',"Cow<'_, str>",'&\'_ str','r#u8','::std::string::String','A','T','[str; {1}]']
def attr(r):
    k=r.randrange(8)
    if k==0: return '#[sscanf(%s)]'%toks(r,6)
    if k==1: return '#[sscanf = %s]'%lit(r)
    if k==2: return '#[sscanf]'
    if k==3: return '#[sscanf{%s}]'%toks(r,3)
    if k<6: return '#[sscanf(format = %s)]'%lit(r)
    if k==6: return '#[sscanf(format_unescaped = %s)]'%lit(r)
    return '#[sscanf(%s)]'%r.choice(['autogen','autogen = %s'%lit(r),'skip','transparent','default','map = %s'%toks(r,3),'default = %s'%toks(r,3), 'from = %s'%r.choice(TYS)])
def attrs(r): return ' '.join(attr(r) for _ in range(r.choice([0,1,1,1,2])))
def fields(r):
    k=r.randrange(3); n=r.randrange(4)
    if k==0: return ''
    if k==1: return '('+', '.join(attrs(r)+' '+r.choice(TYS) for _ in range(n))+')'
    return '{'+', '.join(attrs(r)+' f%d: '%i+r.choice(TYS) for i in range(n))+'}'
def big(r):
    n=r.choice([40,130,300]); k=r.randrange(4)
    if k==0: return 'fn t() { let _ = sscanf::sscanf!("x", "%s"); }'%' '.join('{%s}'%r.choice(['u8','str','i64:x','f32','u8:r36']) for _ in range(n))
    if k==1: return '#[derive(FromScanf)] #[sscanf(format = "%s")] struct A { %s }'%(' '.join('{f%d}'%i for i in range(n)),', '.join('f%d: u8'%i for i in range(n)))
    if k==2: return '#[derive(FromScanf)] #[sscanf(autogen = "%s")] enum E { %s }'%(r.choice(gen.CASES),', '.join('%sV%d'%('#[sscanf(skip)] ' if r.random()<.1 else '',i) for i in range(n)))
    t='u8'
    for _ in range(n//4): t='%s<%s>'%(r.choice(['Vec','Option','Box']),t)
    return 'fn t() { let _ = sscanf::sscanf!("x", "{}{%s}", %s); }'%(t,t)
def via(r,s,plain=False):
    """the same item, written by a macro_rules macro that is given a part of it"""
    ps=[]
    def part(m,kinds):
        nonlocal s
        k=r.choice(m); ps.append((k.group(),r.choice(kinds)))
        s=s[:k.start()]+' $p%d '%len(ps)+s[k.end():]
    if '$' in s or 'union' in s: return s
    for _ in range(r.randint(1,3)):
        j=0 if plain else r.randrange(4)
        l=[m for m in LITS.finditer(s)]
        if j<2:
            if l: part(l,['literal','tt'] if plain else ['literal','literal','expr','tt'])
            continue
        inside=lambda m: any(a.start()<m.start()<a.end() for a in l)
        w=r'(?<=: )(?:\w+::)*\w+(?=[ ,})])|(?<=[(,] )?\b(?:u8|str|String|W|inner::V|f64|Vec<u8>|Cow<[^>]*>)(?=[,)])' if j==2 else r'\b[a-zA-Z]\w*\b'
        l2=[m for m in re.finditer(w,s) if not inside(m) and s[max(m.start()-1,0)] not in "$'#"]
        if l2: part(l2,['ty','ty','path','tt','ident'] if j==2 else ['ident','ident','tt'])
    if not ps: return s
    return 'macro_rules! w { (%s) => { %s } } w! { %s }'%(' ; '.join('$p%d:%s'%(i+1,k) for i,(_,k) in enumerate(ps)),s,' ; '.join(a for a,_ in ps))
def item(r):
    s=item0(r)
    return via(r,s) if r.random()<.15 and len(s)<3000 else s
def item0(r):
    if r.random()<.02: return big(r)
    if r.random()<.3: return spoil(r,gen.Gen(r).item())
    k=r.randrange(5)
    if k<2:
        m=r.choice(['sscanf','scanf','sscanf_unescaped','scanf_unescaped','sscanf_get_regex'])
        if r.random()<.5: a='"x", '+lit(r)+''.join(', '+r.choice(TYS) for _ in range(r.randrange(4)))
        elif r.random()<.5: a=lit(r)+''.join(', '+r.choice(TYS) for _ in range(r.randrange(4)))
        else: a=toks(r,7)
        return 'fn t() { let _ = sscanf::%s!%s; }'%(m,r.choice(['(%s)','[%s]','{%s}','(%s)'])%a)
    g=r.choice(['','',"<'a>",'<T>',"<'a, T: Copy>",'<const N: usize>','<T = u8>'])
    if k<4:
        f=fields(r); return '%s #[derive(FromScanf)] %s struct A%s %s%s'%('' ,attrs(r),g,f,'' if f.startswith('{') else ';')
    if r.random()<.05: return '#[derive(FromScanf)] %s union U { a: u8 }'%attrs(r)
    return '#[derive(FromScanf)] %s enum E%s { %s }'%(attrs(r),g,', '.join(attrs(r)+' V%d%s'%(i,fields(r)+r.choice(['','','',' = 5'])) for i in range(r.randrange(4))))
