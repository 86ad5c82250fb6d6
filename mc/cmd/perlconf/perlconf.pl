use strict; use warnings;
use Sereal::Encoder; use Sereal::Decoder;
binmode STDIN; binmode STDOUT; $| = 1;
$SIG{__WARN__} = sub {};
my $dec = Sereal::Decoder->new({ no_bless_objects => 0 });
my $enc = Sereal::Encoder->new({ protocol_version => 3, compress => 0 });
sub get { my $n = shift; my $b = ''; while (length($b) < $n) { my $r = sysread STDIN, $b, $n - length($b), length($b); exit 0 unless $r } $b }
while (1) {
	my $doc = get(unpack 'N', get(4));
	my ($k, $res);
	my $v;
	if (eval { $dec->decode($doc, $v); 1 }) {
		$k = 'D';
		$res = eval { $enc->encode($v) };
		if (!defined $res) { $k = 'X'; $res = $@ }
	} else {
		($k, $res) = ('E', $@);
	}
	syswrite STDOUT, pack('N a', length $res, $k) . $res;
}
