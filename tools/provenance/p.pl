use Unicode::UCD qw(prop_invmap);
for my $p (qw(GCB WB SB InSC LB Age gc)) {
  my ($l,$m,$f,$d)=prop_invmap($p); open my $o,">","perl_$p.txt";
  for my $i (0..$#$l){ my $hi = $i<$#$l ? $l->[$i+1]-1 : 0x10FFFF; printf $o "%X %X %s\n",$l->[$i],$hi,$m->[$i]; }
}
