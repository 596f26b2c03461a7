use strict; use warnings; use charnames (); use Unicode::UCD qw(prop_invmap);
sub inv { my($p)=@_; my($l,$m,$f,$d)=prop_invmap($p); return ($l,$m,$d); }
for my $p ("GCB","Age","ExtPict","EPres","EA","gc","Emoji"){ my($l,$m,$d)=inv($p); 
 die $p unless $l; for my $i (0..$#$l){ my $e=$i<$#$l?$l->[$i+1]-1:0x10FFFF; next if $l->[$i]>0x10FFFF; printf "%s %06X %06X %s\n",$p,$l->[$i],$e,$m->[$i]; } }
