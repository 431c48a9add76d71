import re, random, sys
SRC='/repo/src/'
FF={'221_3':'field/mod_e221_3.rs','222_117':'field/mod_e222_117.rs','251_9':'field/mod_e251_9.rs','255_19':'field/mod_e255_19.rs','382_105':'field/mod_e382_105.rs','383_187':'field/mod_e383_187.rs','414_17':'field/mod_e414_17.rs','511_187':'field/mod_e511_187.rs','521_1':'field/mod_e521_1.rs','curve':'curve/edwards.rs','E222':'curve/e_222.rs','c1174':'curve/curve1174.rs','E382':'curve/e_382.rs','c41417':'curve/curve41417.rs','E521':'curve/e_521.rs','pf':'field/prime_field.rs'}
NUM=re.compile(r'(?<![\w.])(0x[0-9a-fA-F_]+|\d+)(?=\b)')
def muts(line, rnd):
    """one random mutation of a line, or None"""
    ops=[]
    def rep(pat, news):
        for m in re.finditer(pat, line):
            for n in news: ops.append(line[:m.start()]+m.expand(n)+line[m.end():])
    rep(r'(?<=[\w\])]) \+ (?=[\w(&])', [' - ']); rep(r'(?<=[\w\])]) - (?=[\w(&])', [' + ']); rep(r' \* (?=[\w(&])', [' + '])
    rep(r' >> ', [' << ']); rep(r' & (?=[\w(!])', [' | ',' ^ ']); rep(r' \| ', [' & ',' ^ ']); rep(r'(?<= )\+=', ['-=','=']); rep(r'(?<= )-=', ['+=','=']); rep(r'\|=', ['&=','=']);rep(r'&=', ['|=','='])
    rep(r'!(?=[\w(])(?!\[)', ['']) if 'macro' not in line else None
    for m in NUM.finditer(line):
        s=m.group(1)
        try: v=int(s.replace('_',''),0)
        except ValueError: continue
        for d in (1,-1):
            if v+d>=0: 
                ops.append(line[:m.start()]+(hex(v+d) if s.startswith('0x') else str(v+d))+line[m.end():])
        if v>255:
            b=rnd.randrange(v.bit_length()); ops.append(line[:m.start()]+hex(v^(1<<b))+line[m.end():])
    if re.match(r'^\s+(self|out|[a-z]\w*(\[\w+\])?)[\w.\[\]]* ?([+\-|&]?=|\.)', line) and line.rstrip().endswith(';') : ops += ['']*3
    m=re.match(r'^(\s+let (?:mut )?\w+(?:: \w+)? = )(.*);$', line)
    # swap identifier
    ids=re.findall(r'\b[a-z]\d+\b|\brhs\b|\bself\b', line)
    for m in re.finditer(r'\b([a-z])(\d)\b', line):
        for d in (1,-1):
            k=int(m.group(2))+d
            if k>=0: ops.append(line[:m.start()]+m.group(1)+str(k)+line[m.end():])
    rep(r'\bas i64\b',['as i32 as i64','as u32 as i64']); rep(r'\bas i128\b',['as i64 as i128'])
    rep(r'normalize_self_eq\(',['normalize_eq(']); rep(r'(?<=\.)(normalize)\(\)',['clone()'])
    rep(r'_mask\b',['']) 
    rep(r'true', ['false']); rep(r'false',['true']); rep(r' < ',[' <= ']); rep(r' == ',[' != ']); 
    rep(r'\.\.', ['..1+','1+..'][:1])
    rep(r'CARRY_MASK|HIGH_MASK|\b[A-Z]+_MASK\b', ['(\\g<0> >> 1)'])
    rep(r'squared\(\)',['clone()'])
    if not ops: return None
    return rnd.choice(ops)
def gen(tag, rnd, k=1):
    f=FF[tag]; L=open(SRC+f).read().split('\n')
    end=len(L)
    for i,l in enumerate(L):
        if 'cfg(test)' in l or 'Verification hooks' in l: end=i; break
    fixed=[i for i in range(end) if L[i].strip() and not L[i].strip().startswith(('//','use','#','pub struct','impl','}','type'))]
    edits=[]
    while len(edits)<k:
        i=rnd.choice(fixed); n=muts(L[i], rnd)
        if n is None or n==L[i]: continue
        edits.append((i,L[i],n)); L[i]=n
    return f, '\n'.join(L), edits
