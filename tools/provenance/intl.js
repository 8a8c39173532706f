// usage: crosscheck PKG N | node intl.js grapheme|word|sentence
const rl = require('readline').createInterface({ input: process.stdin });
const seg = new Intl.Segmenter('en-u-lb-strict', { granularity: process.argv[2] });
let n = 0, bad = 0;
rl.on('line', l => {
  const { t, c } = JSON.parse(l);
  // ICU's words are tailored: dictionaries for these scripts, and no colon
  // among the mid-letters
  if (process.argv[2] === 'word' && /[\p{sc=Han}\p{sc=Hira}\p{sc=Kana}\p{sc=Hang}\p{sc=Thai}\p{sc=Lao}\p{sc=Khmr}\p{sc=Mymr}\p{sc=Lana}\p{sc=Tale}\p{sc=Talu}\p{sc=Tavt}\p{sc=Ahom}\u{30fc}\u{ff70}\u{3031}-\u{3035}\u{309b}\u{309c}\u{30a0}\u{ff9e}\u{ff9f}:\u{fe13}\u{fe55}\u{ff1a}\u{02d7}]/u.test(t)) return;
  const got = [];
  for (const s of seg.segment(t)) got.push(s.index + s.segment.length);
  n++;
  if (JSON.stringify(got) !== JSON.stringify(c)) {
    bad++;
    if (bad <= 8) console.log([...t].map(x => x.codePointAt(0).toString(16)).join(' '), 'icu', got.join(), 'ref', c.join());
  }
});
rl.on('close', () => console.log(n, 'texts', bad, 'differ; ICU', process.versions.icu, 'Unicode', process.versions.unicode));
