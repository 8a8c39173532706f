import re,collections
names={'graphemes':"_CR _Control _Extend _ExtendedPictographic _InCBConsonant _InCBExtend _InCBLinker _L _LF _LV _LVT _Prepend _RegionalIndicator _SpacingMark _T _V _ZWJ",
'words':"_ALetter _BleveIdeographic _CR _DoubleQuote _Extend _ExtendNumLet _ExtendedPictographic _Format _HebrewLetter _Katakana _LF _MidLetter _MidNum _MidNumLet _Newline _Numeric _RegionalIndicator _SingleQuote _WSegSpace _ZWJ",
'sentences':"_ATerm _CR _Close _Extend _Format _LF _Lower _Numeric _OLetter _SContinue _STerm _Sep _Sp _Upper"}
def load(p,skip):
    ns=names[p].split(); d={}
    for l in open(p+'.txt'):
        a,v=l.split(); v=int(v); cp=int(a,16)
        s=[ns[i][1:] for i in range(len(ns)) if v>>i&1 and ns[i][1:] not in skip]
        assert len(s)<=1,(a,s)
        d[cp]=s[0] if s else 'Other'
    return d
def perl(p):
    d={}
    for l in open('perl_%s.txt'%p):
        a,b,c=l.split(None,2)
        for i in range(int(a,16),int(b,16)+1): d[i]=c.strip()
    return d
age=perl('Age'); gc=perl('gc')
for p,q,skip in (('graphemes','GCB',('ExtendedPictographic','InCBConsonant','InCBExtend','InCBLinker')),('words','WB',('BleveIdeographic','ExtendedPictographic')),('sentences','SB',())):
    a=load(p,skip); b=perl(q)
    diffs=collections.defaultdict(list)
    for cp in a:
        x=a[cp]; y=b[cp].replace('_','')
        x=x.replace('_','')
        if x!=y: diffs[(x,y,age[cp]!='Unassigned')].append(cp)
    print(p)
    for k,v in sorted(diffs.items()):
        print(' ',k,len(v),' '.join('%X'%c for c in v[:40]) if k[2] else '')
