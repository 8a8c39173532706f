const fs=require('fs');
const P=(s)=>{const re=new RegExp('^\\p{'+s+'}$','u');return re};
const props=['Cc','Cf','Cn','Zl','Zp','Zs','Mn','Me','Mc','Nd','Nl','Lt','Lo','Lu','Ll','Ps','Pe','Pc','Po','Default_Ignorable_Code_Point','Grapheme_Extend','Emoji_Modifier','Regional_Indicator','Alphabetic','Ideographic','Lowercase','Uppercase','White_Space','Sentence_Terminal','Extended_Pictographic','Script=Katakana','Script=Hiragana','Script=Hebrew','Script=Han','Pi','Pf','Script=Thai','Script=Lao','Script=Georgian'];
for(const p of props){const re=P(p);const out=[];for(let c=0;c<=0x10ffff;c++){if(c>=0xd800&&c<=0xdfff)continue;if(re.test(String.fromCodePoint(c)))out.push(c.toString(16).toUpperCase());}
fs.writeFileSync('node_'+p.replace('=','_')+'.txt',out.join('\n')+'\n');}
