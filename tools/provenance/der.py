import collections
exec(open('cmp.py').read().split("age=perl")[0])
N=lambda p:{int(l,16) for l in open('node_%s.txt'%p.replace('=','_')) if l.strip()}
pcm={int(l,16) for l in open('go_pcm.txt') if l.strip()}
S={p:N(p) for p in ['Cc','Cf','Cn','Zl','Zp','Zs','Mn','Me','Mc','Nd','Nl','Lt','Lo','Lu','Ll','Ps','Pe','Pc','Po','Pi','Pf','Default_Ignorable_Code_Point','Grapheme_Extend','Emoji_Modifier','Regional_Indicator','Alphabetic','Ideographic','Lowercase','Uppercase','White_Space','Sentence_Terminal','Extended_Pictographic','Script=Katakana','Script=Hiragana','Script=Hebrew','Script=Han','Script=Georgian']}
lb=perl('LB'); insc=perl('InSC'); gc=perl('gc')
allc=[c for c in range(0x110000) if not 0xD800<=c<=0xDFFF]
R=lambda *a:{c for x in a for c in (range(x[0],x[1]+1) if isinstance(x,tuple) else (x,))}
def gcb(c):
    if c==0xD:return'CR'
    if c==0xA:return'LF'
    if c==0x200D:return'ZWJ'
    if c in S['Grapheme_Extend'] or c in S['Emoji_Modifier']: return'Extend'
    if c!=0x200C and c not in pcm and (c in S['Zl']or c in S['Zp']or c in S['Cc']or c in S['Cf']or(c in S['Cn'] and c in S['Default_Ignorable_Code_Point'])):return'Control'
    if c in S['Regional_Indicator']:return'RegionalIndicator'
    if c in pcm or insc.get(c) in('Consonant_Preceding_Repha','Consonant_Prefixed'): return 'Prepend'
    exc=R(0x102B,0x102C,0x1038,(0x1062,0x1064),(0x1067,0x106D),0x1083,(0x1087,0x108C),0x108F,(0x109A,0x109C),0x1A61,0x1A63,0x1A64,0xAA7B,0xAA7D,0x11720,0x11721)
    if (c in S['Mc'] and c not in exc) or c in (0xE33,0xEB3): return'SpacingMark'
    if 0x1100<=c<=0x115F or 0xA960<=c<=0xA97C: return'L'
    if 0x1160<=c<=0x11A7 or 0xD7B0<=c<=0xD7C6 : return'V'
    if 0x11A8<=c<=0x11FF or 0xD7CB<=c<=0xD7FB: return'T'
    if 0xAC00<=c<=0xD7A3: return 'LV' if (c-0xAC00)%28==0 else 'LVT'
    return'Other'
def wb(c):
    if c==0xD:return'CR'
    if c==0xA:return'LF'
    if c in(0xB,0xC,0x85,0x2028,0x2029):return'Newline'
    if c==0x200D:return'ZWJ'
    if c==0x27:return'SingleQuote'
    if c==0x22:return'DoubleQuote'
    if c in S['Grapheme_Extend'] or c in S['Mc'] or c in S['Emoji_Modifier']:return'Extend'
    if c in S['Regional_Indicator']:return'RegionalIndicator'
    if c in S['Cf'] and c not in(0x200B,0x200C,0x200D) and c not in pcm:return'Format'
    if c in S['Script=Katakana'] or c in R((0x3031,0x3035),0x309B,0x309C,0x30A0,0x30FC,0xFF70):return'Katakana'
    if c in S['Script=Hebrew'] and c in S['Lo']:return'HebrewLetter'
    if c in (0x3A,0xB7,0x387,0x55F,0x5F4,0x2027,0xFE13,0xFE55,0xFF1A): return 'MidLetter'
    if c in (0x2E,0x2018,0x2019,0x2024,0xFE52,0xFF07,0xFF0E): return 'MidNumLet'
    if c in (0x2C,0x3B,0x37E,0x589,0x60C,0x60D,0x66C,0x7F8,0x2044,0xFE50,0xFE54,0xFF0C,0xFF1B): return'MidNum'
    if c in S['Nd'] or c==0x66C or (c in pcm and c!=0x70F): return 'Numeric'
    if c in S['Pc'] or c==0x202F: return 'ExtendNumLet'
    if c in S['Zs'] and c not in(0xA0,0x2007,0x202F): return'WSegSpace'
    if c in S['Alphabetic'] or c in R(0xB8,(0x2C2,0x2C5),(0x2D2,0x2D7),0x2DE,0x2DF,(0x2E5,0x2EB),0x2ED,(0x2EF,0x2FF),0x55A,0x55B,0x55C,0x55E,0x58A,0x5F3,0x70F,(0xA708,0xA716),0xA720,0xA721,0xA789,0xA78A,0xAB5B):
        if c in S['Ideographic'] or c in S['Script=Hiragana'] or lb.get(c)=='Complex_Context': return 'Other'
        return 'ALetter'
    return'Other'
def sb(c):
    if c==0xD:return'CR'
    if c==0xA:return'LF'
    if c in(0x85,0x2028,0x2029):return'Sep'
    if c in S['Grapheme_Extend'] or c in S['Mc'] or c in S['Emoji_Modifier'] or c==0x200D:return'Extend'
    if c in S['Cf'] and c not in(0x200C,0x200D) and c not in pcm:return'Format'
    if c in S['White_Space']:return'Sp'
    if c in S['Nd'] or c==0x66C or (c in pcm and c!=0x70F): return 'Numeric'
    if c in S['Lowercase'] and not (0x10D0<=c<=0x10FA or 0x10FD<=c<=0x10FF) : return'Lower'
    if c in S['Lt'] or (c in S['Uppercase'] and not (0x1C90<=c<=0x1CBF)): return'Upper'
    if c in S['Alphabetic'] or c in(0xA0,0x5F3): return'OLetter'
    if c in (0x2E,0x2024,0xFE52,0xFF0E): return'ATerm'
    if c in S['Sentence_Terminal']: return 'STerm'
    if c in R(0x2C,0x2D,0x3A,0x3B,0x37E,0x55D,0x60C,0x60D,0x7F8,0x1802,0x1808,0x2013,0x2014,0x3001,0xFE10,0xFE11,0xFE13,0xFE14,0xFE31,0xFE32,0xFE50,0xFE51,0xFE54,0xFE55,0xFE58,0xFE63,0xFF0C,0xFF0D,0xFF1A,0xFF1B,0xFF64): return'SContinue'
    if c in S['Ps'] or c in S['Pe'] or c in S['Pi'] or c in S['Pf'] or lb.get(c)=='Quotation': return'Close'
    return'Other'
def ranges(v):
    o=[];v=sorted(v)
    for c in v:
        if o and c==o[-1][1]+1:o[-1][1]=c
        else:o.append([c,c])
    return ' '.join('%X'%a if a==b else '%X-%X'%(a,b) for a,b in o)
for p,f,skip in (('graphemes',gcb,('ExtendedPictographic','InCBConsonant','InCBExtend','InCBLinker')),('words',wb,('BleveIdeographic','ExtendedPictographic')),('sentences',sb,())):
    a=load(p,skip); diffs=collections.defaultdict(list)
    for c in allc:
        x=a[c];y=f(c)
        if x!=y:diffs[(x,y)].append(c)
    print(p)
    for k,v in sorted(diffs.items()): print('  tree=%s derived=%s'%k,len(v),ranges(v))
for p,i in (('graphemes',3),('words',6),('phrases',5)):
    tree={int(l.split()[0],16) for l in open(p+'.txt') if int(l.split()[1])>>i&1}
    print(p,'ExtPict diff',ranges(tree^S['Extended_Pictographic']))
tree={int(l.split()[0],16) for l in open('words.txt') if int(l.split()[1])>>1&1}
a=load('words',('BleveIdeographic','ExtendedPictographic'))
want=S['Script=Han']|S['Script=Hiragana']|{c for c in allc if a[c]=='Katakana'}
print('ideo',ranges(tree-want),'|',ranges(want-tree))
# phrases == words table minus ideo
w={};
nw=names['words'].split(); npn=[x for x in nw if x!='_BleveIdeographic']
bad=0
W=[l.split() for l in open('words.txt')];Ph=[l.split() for l in open('phrases.txt')]
for (c,v),(c2,v2) in zip(W,Ph):
    v=int(v);v2=int(v2)
    s={nw[i] for i in range(len(nw)) if v>>i&1}-{'_BleveIdeographic'}; s2={npn[i] for i in range(len(npn)) if v2>>i&1}
    if s!=s2: bad+=1
print('phrases vs words bad',bad)
