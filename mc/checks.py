"""What each property's check builds and runs."""
ASSUME=["g++ 13, libstdc++ and the harness' reference models are trusted","explored within the bounds stated in DESIGN.md"]
CHECKS={
 'C09':dict(bins=[dict(name='ffbig',src=['ffbig.cc'],opt='2',san='none'),dict(name='ffgen',src=['ffgen.cc'],opt='1')],
   assumptions=["operands of the two large fields are drawn from a structured alphabet (all powers of two +-1, limb patterns, boundary residues), every pair of them; the small-prime instances of the generic routines are exhaustive"]),
}
CHECKS['C10']=dict(bins=[dict(name='z2k%d'%i,src=['z2k.cc'],opt='1',flags=['-DKLO=%d'%(1+32*i),'-DKHI=%d'%(32+32*i)],repo=['scl']) for i in range(4)],
  assumptions=["K<=6: all operands and all pairs; larger K: structured alphabet of operands (powers of two +-1, complements, limb patterns), all pairs"])
CHECKS['C19']=dict(bins=[dict(name='hash',src=['hash.cc'],opt='1',repo=['scl:hash.cc'])],
  assumptions=["message contents: four fixed patterns plus every one-bit message of six lengths; lengths and chunkings are exhaustive within bounds"])
# the same histories with the (documented, configurable) initial counter just below a power of two: the counter's width matters there
CHECKS['C18']=dict(bins=[dict(name='prg',src=['prg.cc'],opt='1',repo=['scl:prg.cc'])]+[dict(name='prg_at%d'%e,src=['prg.cc'],opt='1',flags=['-DPRG_INITIAL_COUNTER=%d'%(2**e-3)],repo=['scl:prg.cc']) for e in (16,31,32,48)],
  assumptions=["259 seeds (zero, ones, a pattern, every one-bit seed and difference); the AES hardware instructions of this machine are part of the code under test"])
CHECKS['C11']=dict(bins=[dict(name='strbytes',src=['strbytes.cc'],opt='1',flags=['-fsanitize=alignment','-fno-sanitize-recover=alignment'],ldflags=['-fsanitize=alignment'],repo=['scl'])],
  assumptions=["strings: all strings over small alphabets up to a length, all single-character substitutions, numbers of every magnitude; an empty string and base64 with non-zero spare bits are unspecified"])
CHECKS['C12']=dict(bins=[dict(name='matvec',src=['matvec.cc'],opt='1',repo=['scl:prg.cc|math'])],
  assumptions=["contents exhaustive for small shapes; for larger ones unit vectors and dense patterns (the operations are entry-wise or bilinear)"])
CHECKS['C13']=dict(bins=[dict(name='linsys',src=['linsys.cc'],opt='2',san='asan',repo=['scl:prg.cc|math'])],
  assumptions=["all matrices of the listed shapes over GF(2), GF(3), GF(5), GF(7); larger ones by pivot structure"])
CHECKS['C14']=dict(bins=[dict(name='poly',src=['poly.cc'],opt='1',repo=['scl:math'])],
  assumptions=["all pairs of polynomials up to a length over GF(2), GF(3), GF(5), GF(7); over the two large fields structured coefficients with ring identities at 16 points"])
CHECKS['C15']=dict(bins=[dict(name='packed',src=['packed.cc'],opt='2',repo=['scl:math'],shim=['prg'])],
  assumptions=["the generator is replaced: every byte it returns is enumerated (small fields), so every random tape is covered"])
CHECKS['C16']=dict(bins=[dict(name='shamir',src=['shamir.cc'],opt='2',repo=['scl:math'],shim=['prg'])],
  assumptions=["the generator is replaced: every byte it returns is enumerated (small fields)","error values and positions: every word for t=1 (and t=2 over GF(7) in thorough), every pattern of bounded weight around fixed sharings above"])
CHECKS['C17']=dict(bins=[dict(name='privacy',src=['privacy.cc'],opt='2',repo=['scl:math'],shim=['prg'])],
  assumptions=["the generator is replaced by one whose output bytes are enumerated: uniform output is the stated hypothesis","uniformity of the largest unauthorised coalitions implies that of the smaller ones"])

def tpbin(name,src,p,**k):
    d=dict(name='%s_p%d'%(name,p) if p else name+'_ff61',src=[src],opt='2',san='none',repo=['scl:math|hash|net','tp'],shim=['prg']+(['tp'] if p else []),flags=(['-DTP_P=%d'%p] if p else [])+['-D_GLIBCXX_ASSERTIONS']); d.update(k); return d
TPA="the generators of the parties are replaced by enumerated / fixed tapes, independent per party"
CHECKS['C01']=dict(bins=[tpbin('tprun','tprun.cc',7),tpbin('tprun','tprun.cc',17,san='asan'),tpbin('tprun','tprun.cc',0)],
  assumptions=[TPA,"parties run phase by phase in lock-step here; interleavings are C02"])
CHECKS['C03']=dict(bins=[tpbin('dnrun','dnrun.cc',7),tpbin('dnrun','dnrun.cc',17,san='asan'),tpbin('dnrun','dnrun.cc',0)],
  assumptions=[TPA,"parties run phase by phase in lock-step here; interleavings are C04"])
CHECKS['C08']=dict(bins=[tpbin('circ','circ.cc',7,san='asan',opt='1'),tpbin('circ','circ.cc',0,san='asan',opt='1')],
  assumptions=["circuits use the public construction interface; multiplications only use wires of earlier layers"])
CHECKS['C05']=dict(bins=[tpbin('corr','corr.cc',7),tpbin('corr','corr.cc',17,san='asan'),tpbin('corr','corr.cc',0)],
  assumptions=[TPA,"tapes: all with at most two non-zero draws (the checked identities are bilinear in the draws) plus dense ones; parties follow the protocol"])
CHECKS['C06']=dict(bins=[tpbin('fresh','fresh.cc',17),tpbin('scale','scale.cc',0),dict(name='freshdn',src=['freshdn.cc'],opt='2',san='none',repo=['scl:math|hash|net','tp'],shim=['prg','tpd'],flags=['-DTP_DUAL','-D_GLIBCXX_ASSERTIONS'])],
  assumptions=[TPA+"; generators of different parties are independent and uniform, two generators of one party with the same seed give the same stream","the preprocessing is linear in the draws apart from the products: run on every unit tape, additivity validated on pairs of draws, joint uniformity decided by the rank of the images; for DN07 the derivative of every message at the all-zero tape is exact (dual numbers)"])
CHECKS['C30']=dict(bins=[dict(name='view',src=['view.cc'],opt='2',san='none',repo=['scl:math|hash|net','tp'],shim=['prg','tpd'],flags=['-DTP_DUAL','-D_GLIBCXX_ASSERTIONS'])],
  assumptions=[TPA+"; generators of different parties are independent and uniform","independence is decided to first order at generic points: a dependence that shows only on a set of inputs and draws of measure zero would be missed","parties follow the protocol and keep their messages (semi-honest)"])
CHECKS['C07']=dict(bins=[tpbin('dummy','dummy.cc',7),tpbin('dummy','dummy.cc',17,san='asan',opt='1'),tpbin('dummy','dummy.cc',0)],
  assumptions=["parties run phase by phase in lock-step; one evaluation per circuit object (masks are one-time)"])
CHECKS['C28']=dict(bins=[tpbin('misuse','misuse.cc',23,san='asan',opt='1')],
  assumptions=["the misuses named in the property; calls before their documented prerequisites that the property does not name (inputs before a network) are outside"])

# ---- controlled scheduling
NETA="threads are fibers of one OS thread: every lock, condition variable, future, atomic flag and socket call is a scheduling point; other memory accesses are checked for data races (happens-before) instead of being interleaved"
CHECKS['C22']=dict(bins=[dict(name='queue',src=['queue.cc','sched.cc'],opt='1',san='vtsan',repo=[])],
  assumptions=[NETA,"condition variables may wake spuriously; notify_one may wake any waiter"])
CHECKS['C26']=dict(bins=[dict(name='config',src=['config.cc'],opt='1',san='asan',repo=['scl:net/config'])],
  assumptions=["lines whose id or port is a number followed by other characters, or with more than two commas, are outside","files of at most 5 lines; short texts over the characters 0 1 , x and newline"])
WL=["-DMAX_VEC_READ_SIZE=24","-DMAX_MAT_READ_SIZE=24"]
CHECKS['C27']=dict(bins=[dict(name='wire',src=['wire.cc'],opt='1',san='asan',repo=['scl'],flags=WL),dict(name='wiredef',src=['wire.cc'],opt='1',san='asan',repo=['scl']),
  dict(name='accept',src=['net.cc','sched.cc'],opt='1',san='vtsan',repo=['scl'],hflags=['-DACCEPT'])],
  assumptions=["limits 24 (all sizes around it) and the default 2^25","headers: all small sizes and all combinations of the boundary values, including those whose product wraps around 2^32"])
CHECKS['C31']=dict(bins=[dict(name='setup',src=['setup.cc','sched.cc'],opt='1',san='vtsan',repo=['scl'])],
  assumptions=[NETA,"the parties with smaller identities listen, and whoever connects announces itself; errors of close() are left out"])
CHECKS['C21']=dict(bins=[dict(name='tcp',src=['tcp.cc','sched.cc'],opt='1',san='none',repo=['scl'])],
  assumptions=["the socket calls are replaced by a virtual socket layer with the semantics of a connected stream socket; EINTR may be retried or reported","streams of at most 9 bytes: every cut of every call; longer ones: cuts by fixed rules"])
CHECKS['C20']=dict(bins=[dict(name='memch',src=['memch.cc','sched.cc'],opt='1',san='vtsan',repo=['scl'])],
  assumptions=[NETA,"one thread sends and one thread receives on an end at a time, as the channel documents no more"])
CHECKS['C24']=dict(bins=[dict(name='net',src=['net.cc','sched.cc'],opt='1',san='vtsan',repo=['scl'])],
  assumptions=[NETA,"connections are made over a virtual socket layer: a connection attempt fails until the peer listens, succeeds as long as the backlog has room"])
CHECKS['C23']=dict(bins=[dict(name='tsender',src=['tsender.cc','sched.cc'],opt='1',san='vtsan',repo=['scl'])],
  assumptions=[NETA,"data not yet written when the channel is closed may be dropped; a socket buffers 1, 2 or arbitrarily many bytes"])
CHECKS['C25']=dict(bins=[dict(name='discover',src=['discover.cc','sched.cc'],opt='1',san='vtsan',repo=['scl'])],
  assumptions=[NETA,"exactly as many clients as the server expects connect; a connection attempt fails until the server listens"])
CHECKS['C02']=dict(bins=[tpbin('prun','prun.cc',0,san='vtsan',opt='1')],
  assumptions=[TPA,"channels between two parties are reliable, in order and buffer any number of messages","intra-party concurrency is that of the benchmark program"])
CHECKS['C04']=dict(bins=[tpbin('prundn','prun.cc',0,san='vtsan',opt='1')],
  assumptions=[TPA,"channels between two parties are reliable, in order and buffer any number of messages","intra-party concurrency is that of the benchmark program"])
CHECKS['C04']['bins'][0]['hflags']=['-DPRUN_DN']
for k in ('C02','C04'): CHECKS[k]['bins'][0]['src']=['prun.cc','sched.cc']
CHECKS['C29']=dict(bins=[dict(name='b'+x,src=['brun.cc','sched.cc'],opt='1',san='vtsan',repo=['scl!net/network.cc','tp'],hflags=['-I'+__import__('os').environ.get('VERIF_REPO','/repo'),'-DPROGRAM="experiments/%s.cc"'%x]) for x in ('ours','dn07')],
  assumptions=[NETA,"Network::Create is replaced by one connecting the parties over reliable in-order channels (the real one is C24); the channels buffer unboundedly many bytes or 16 to 64","sizes whose layers have an even number of multiplications; larger party counts and sizes are outside the bounds"])
