# Runs one piece of Perl per line (in hex) and answers with one line of JSON, in which all values are strings in hex
use strict;
use warnings;

$| = 1;
our ($db, @kept);

sub json {
	my ($v) = @_;
	return "null" if !defined $v;
	return "[" . join(",", map { json($_) } @$v) . "]" if ref $v eq "ARRAY";
	return '"' . unpack("H*", "$v") . '"';
}

while (my $line = <STDIN>) {
	chomp $line;
	my $code = pack("H*", $line);
	my @r = eval $code;
	my $e = $@;
	print(($e ne "" ? "[false," . json($e) . "]" : "[true," . join(",", map { json($_) } @r) . "]") =~ s/,\]$/]/r, "\n");
}
